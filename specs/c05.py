import numpy as np
from pyvc.spec import contract
import qampy.core.equalisation.pythran_equalisation as pe
import qampy.core.equalisation.equalisation as eq
import qampy.equalisation as api
import qampy.theory as th
import qampy.signals as sg
from specs.common import *
from specs.c02 import gen_alpha

DT = [np.complex128, np.complex64]
FT = {np.complex128: np.float64, np.complex64: np.float32}


# ------------------------------------------------------------------ error functions, from their definitions
def sgn(S, x):
    return S.ite(S.lt(0, x), lambda: 1., lambda: S.ite(S.lt(x, 0), lambda: -1., lambda: 0.))


def first_partition(S, v, part, n):
    """position of the first partition that is not exceeded; n if all are"""
    return S.argmin(n + 1, lambda q: S.ite(S.and_(q < n, S.lt(part(S.imin(q, n - 1)), v)), lambda: 1, lambda: 0))


def radius(S, v, code, part, n):
    return code(first_partition(S, v, part, n))


def spec_partition_value(S, v, part, code, fct):
    c = S.re if fct is np.real else S.im
    return radius(S, v, lambda q: c(code[q]), lambda q: c(part[q]), S.shape(part)[0])


def nearest(S, X, row, M):
    return row(S.argmin(M, lambda q: S.abs2(X - row(q))))


def error(S, method, X, row, M, i):
    """the error function of every method; row(q) is the q-th of the M symbols"""
    xr, xi = S.re(X), S.im(X)
    if method == "cma":
        return X * (S.re(row(0)) - S.abs2(X))
    if method == "sgncma":
        d = sgn(S, S.re(row(0)) - S.abs2(X))
        return S.complex(d * sgn(S, xr), d * sgn(S, xi))
    if method == "cma2":
        return X * (row(0) - X * X)
    if method == "mcma":
        return S.complex(xr * (S.re(row(0)) - xr * xr), xi * (S.im(row(0)) - xi * xi))
    if method in ("rde", "mrde"):
        nc = (M + 1) // 2
        code, part = row, lambda q: row(q + nc)
        f = lambda c, v: radius(S, v, lambda q: c(code(q)), lambda q: c(part(q)), nc - 1)
        if method == "rde":
            return X * (f(S.re, S.abs2(X)) - S.abs2(X))
        return S.complex(xr * (f(S.re, xr * xr) - xr * xr), xi * (f(S.im, xi * xi) - xi * xi))
    s = row(i) if method == "sbd_data" else nearest(S, X, row, M)
    if method == "dd":
        return s - X
    if method == "mddma":
        return S.complex(xr * (S.re(s) ** 2 - xr * xr), xi * (S.im(s) ** 2 - xi * xi))
    return S.complex((S.re(s) - xr) * S.fn(np.abs, S.re(s)), (S.im(s) - xi) * S.fn(np.abs, S.im(s)))


def error_real(S, method, X, row, M, i):
    if method == "cma":
        return X * (row(0) - X * X)
    if method == "sgncma":
        return sgn(S, row(0) - X * X) * sgn(S, X)
    s = row(i) if method == "dd_data" else row(S.argmin(M, lambda q: S.fn(np.abs, X - row(q))))
    return (s - X) * S.fn(np.abs, s)


FCT = dict(cma=pe.cma_error, sgncma=pe.sgncma_error, cma2=pe.cma2_error, mcma=pe.mcma_error, rde=pe.rde_error, mrde=pe.mrde_error, sbd=pe.sbd_error, mddma=pe.mddma_error,
           dd=pe.ddlms_error, sbd_data=pe.sbd_data_error)
FCTR = dict(cma=pe.cma_error_real, sgncma=pe.sgncma_error_real, dd=pe.dd_error_real, dd_data=pe.dd_data_error_real)


def size(S, method):
    return 2 * S.int('ncodes', 2, cmax=4) - 1 if method in ("rde", "mrde") else S.int('M', 1, cmax=6)


@contract("C05", cases=[dict(dt=d, f=f) for d in DT for f in ("re", "im")])
def partition_value(S, dt, f):
    """the code of the partition that holds the value; between sorted codes with the partitions half-way this is the nearest code"""
    n = S.int('n', 1, cmax=5)
    if S.symbolic:
        code, part = S.array('code', (n + 1,), dt), S.array('part', (n,), dt)
    else:
        code = np.sort(np.round(S.rng.uniform(0, 9, n + 1), 1)) + 1j * np.sort(np.round(S.rng.uniform(0, 9, n + 1), 1))
        part = ((code[1:] + code[:-1]) / 2).astype(dt)
        code = code.astype(dt)
    v = S.real('v', 0)
    fct = np.real if f == "re" else np.imag
    r = S.call(pe.partition_value, v, part, code, fct)
    S.ensure_eq("code of the partition", r, spec_partition_value(S, v, part, code, fct))
    c = S.re if f == "re" else S.im
    S.assume_forall((n,), lambda q: S.eq(c(part[q]) * 2, c(code[q]) + c(code[q + 1])))
    S.assume_forall((n + 1, n + 1), lambda p, q: S.implies(p < q, S.le(c(code[p]), c(code[q]))))
    j = first_partition(S, v, lambda q: c(part[q]), n)
    S.lemma("position", S.and_(S.le(0, j), S.le(j, n)))
    S.lemma("at most the partition above", S.implies(j < n, S.le(v, c(part[S.imin(j, n - 1)]))))
    S.lemma("over the partition below", S.implies(j > 0, S.lt(c(part[S.imax(j - 1, 0)]), v)))
    S.lemma_forall("codes below", (n + 1,), lambda q: S.implies(q < j, S.le(c(code[q]), c(code[S.imax(j - 1, 0)]))))
    S.lemma_forall("codes above", (n + 1,), lambda q: S.implies(q > j, S.le(c(code[S.imin(j + 1, n)]), c(code[q]))))
    S.forall((n + 1,), lambda q: S.ensure("nearest code", S.le(S.fn(np.abs, v - r), S.fn(np.abs, v - c(code[q])))))


@contract("C05", cases=[dict(dt=d, method=m) for d in DT for m in FCT])
def error_function(S, dt, method):
    M = size(S, method)
    symbs = S.array('symbs', (M,), dt, gen=gen_alpha)
    X = S.cplx('X', dt=dt)
    i = S.int('i', 0, cmax=None if S.symbolic else int(M) - 1)
    S.require(i < M)
    S.by_contract(pe.partition_value, spec_partition_value, "C05 partition_value")
    S.by_contract(pe.det_symbol, spec_det_symbol, "C02 det_symbol")
    r = S.call(FCT[method], X, symbs, i)
    S.ensure_eq("error of the method", r, error(S, method, X, lambda q: symbs[q], M, i))
    S.ensure_unchanged("symbols unchanged", symbs)


@contract("C05", cases=[dict(dt=d, method=m) for d in (np.float64, np.float32) for m in FCTR])
def error_function_real(S, dt, method):
    M = S.int('M', 1, cmax=6)
    symbs = S.array('symbs', (M,), dt)
    X = S.real('X', dt=dt)
    i = S.int('i', 0, cmax=None if S.symbolic else int(M) - 1)
    S.require(i < M)
    r = S.call(FCTR[method], X, symbs, i)
    S.ensure_eq("error of the method", r, error_real(S, method, X, lambda q: symbs[q], M, i))


def adapted(S, mu, e0, e):
    """the step shrinks unless the errors of both quadratures keep their sign"""
    return S.ite(S.and_(S.lt(0, S.re(e) * S.re(e0)), S.lt(0, S.im(e) * S.im(e0))), lambda: mu, lambda: mu / (1 + mu * S.abs2(e)))


def adapted_real(S, mu, e0, e):
    return S.ite(S.lt(0, e * e0), lambda: mu, lambda: mu / (1 + mu * e * e))


@contract("C05", cases=[dict(real=False), dict(real=True)])
def adapt_step(S, real):
    mu = S.real('mu', 0, strict=True)
    e, e0 = (S.real('e'), S.real('e0')) if real else (S.cplx('e'), S.cplx('e0'))
    if S.symbolic is False and S.rng.integers(2):
        e0 = e * abs(S.rng.normal())
    r = S.call(pe.adapt_step_real if real else pe.adapt_step, mu, e, e0)
    S.ensure_eq("adapted step", r, (adapted_real if real else adapted)(S, mu, e, e0))
    S.ensure("stays positive", S.lt(0, r))
    S.ensure("never grows", S.le(r, mu))


def training(S, dt, method, adaptive, real):
    """ghost taps W(p,n,m,k), errors e(p,n) and steps Mu(p,n) of the p-th selected mode before its n-th step (n counts over the iterations),
    defined by the stated recursion; the loops are shown to carry exactly these"""
    nm, nt, os_, T, Ni = S.int('nm', 1), S.int('ntaps', 1), S.int('os', 1), S.int('TrSyms', 1), S.int('Niter', 1)
    L = S.int('L', 1)
    S.require(L >= (T - 1) * os_ + nt)
    ns = size(S, method)
    if method in ("sbd_data", "dd_data"):
        S.require(ns >= T)
    ft = FT.get(dt, dt)
    E = S.array('E', (nm, L), dt)
    wx = S.array('wx', (nm, nm, nt), dt)
    nsel = S.int('nsel', 1)
    modes = S.array('modes', (nsel,), np.int64, lo=0, hi=nm - 1)
    symbs = S.array('symbs', (nm, ns), dt)
    mu0 = S.real('mu', 0, strict=True, dt=ft)
    pos, sel = S.ghost('pos', 1, 'i'), S.ghost('selected', 1, 'b')
    S.assume_forall((nsel,), lambda p: S.and_(S.eq(pos(modes[p]), p), sel(modes[p])))
    S.assume_forall((nm,), lambda a: S.implies(sel(a), S.and_(pos(a) >= 0, pos(a) < nsel, S.eq(modes[pos(a)], a))))
    k_ = 'f' if real else 'c'
    W, e, Mu = S.ghost('W', 4, k_, np.dtype(dt)), S.ghost('e', 2, k_, np.dtype(dt)), S.ghost('Mu', 2, 'f', np.dtype(ft))
    w0 = lambda a, m, k: S.initial(wx)[a, m, k]
    mu = (lambda p, n: Mu(p, n)) if adaptive else (lambda p, n: mu0)
    win = lambda i, m, k: E[m, i * os_ + k]
    cj = (lambda x: x) if real else S.conj

    def err(p, it, i):
        X = S.sum(nm, lambda m: S.sum(nt, lambda k: win(i, m, k) * W(p, it * T + i, m, k)))
        return (error_real if real else error)(S, method, X, lambda q: symbs[modes[p], q], ns, i)
    new = lambda p, it, i: (lambda m, k: W(p, it * T + i, m, k) + mu(p, it * T + i) * err(p, it, i) * cj(win(i, m, k)))
    old = lambda p: lambda a, m, k: S.ite(S.and_(sel(a), pos(a) < p), lambda: W(pos(a), Ni * T, m, k), lambda: w0(a, m, k))
    at = lambda p, f: (lambda a, m, k: S.ite(S.eq(a, modes[p]), lambda: f(m, k), lambda: old(p)(a, m, k)))
    Wn = lambda p, n: (lambda m, k: W(p, n, m, k))
    S.invariant("taps within a mode", 3, k_, 3, lambda p, it, i: at(p, Wn(p, it * T + i)), lambda p, it, i: at(p, new(p, it, i)))
    S.invariant("taps of a mode over the iterations", 2, k_, 3, lambda p, it: at(p, Wn(p, it * T)), lambda p, it: at(p, Wn(p, it * T + T)),
                lambda p: at(p, lambda m, k: w0(modes[p], m, k)))
    S.invariant("taps of the modes", 1, k_, 3, lambda p: old(p), lambda p: at(p, Wn(p, Ni * T)), lambda: w0)
    ate = lambda p, n, last: (lambda a, q: S.ite(S.eq(a, modes[p]), lambda: S.ite(q < n, lambda: e(p, q), lambda: last(q)),
                                                 lambda: S.ite(S.and_(sel(a), pos(a) < p), lambda: e(pos(a), q), lambda: 0)))
    zero = lambda q: 0
    S.invariant("errors within a mode", 3, k_, 2, lambda p, it, i: ate(p, it * T + i, zero),
                lambda p, it, i: ate(p, it * T + i, lambda q: S.ite(S.eq(q, it * T + i), lambda: err(p, it, i), lambda: 0)))
    S.invariant("errors of a mode over the iterations", 2, k_, 2, lambda p, it: ate(p, it * T, zero), lambda p, it: ate(p, it * T + T, zero))
    S.invariant("errors of the modes", 1, k_, 2, lambda p: lambda a, q: S.ite(S.and_(sel(a), pos(a) < p), lambda: e(pos(a), q), lambda: 0),
                lambda p: ate(p, Ni * T, zero), lambda: lambda a, q: 0)
    if adaptive:
        step = adapted_real if real else adapted
        prev = lambda p: S.ite(S.eq(p, 0), lambda: mu0, lambda: Mu(p - 1, Ni * T))
        S.invariant("step within a mode", 3, 'f', 0, lambda p, it, i: Mu(p, it * T + i),
                    lambda p, it, i: S.ite(i > 0, lambda: step(S, Mu(p, it * T + i), err(p, it, i), e(p, it * T + i - 1)), lambda: Mu(p, it * T + i)))
        S.invariant("step over the iterations", 2, 'f', 0, lambda p, it: Mu(p, it * T), lambda p, it: Mu(p, it * T + T), prev)
        S.invariant("step over the modes", 1, 'f', 0, prev, lambda p: Mu(p, Ni * T))
    S.by_contract(pe.partition_value, spec_partition_value, "C05 partition_value")
    S.by_contract(pe.det_symbol, spec_det_symbol, "C02 det_symbol")
    S.by_contract(pe.adapt_step, adapted, "C05 adapt_step")
    S.by_contract(pe.adapt_step_real, adapted_real, "C05 adapt_step")
    er, w, m_ = S.call(pe.train_equaliser_realvalued if real else pe.train_equaliser, E, T, Ni, os_, mu0, wx, modes, adaptive, symbs, method)
    S.ensure_array("errors of the selected modes, zero for the others", er, (nm, T * Ni),
                   lambda a, q: S.ite(sel(a), lambda: e(pos(a), q), lambda: 0), dtype=dt)
    S.ensure_array("taps after the last step, those of the other modes unchanged", w, (nm, nm, nt),
                   lambda a, m, k: S.ite(sel(a), lambda: W(pos(a), Ni * T, m, k), lambda: w0(a, m, k)), dtype=dt)
    S.ensure_eq("returned step", m_, Mu(nsel - 1, Ni * T) if adaptive else mu0)
    for lab, a in (("signal", E), ("modes", modes), ("symbols", symbs)):
        S.ensure_unchanged(lab + " unchanged", a)


# ------------------------------------------------------------------ the same recursion step by step, for replaying on the real code
def simulate(S, E, T, Ni, os_, mu, wx, modes, adaptive, symbs, method, real, single):
    E, w, symbs = [np.array(x, dtype=float if real else complex) for x in (E, wx, symbs)]
    mu0 = mu = float(mu)
    er = np.zeros((E.shape[0], T * Ni), dtype=E.dtype)
    nt, M = w.shape[2], symbs.shape[1]
    for p in [int(q) for q in modes]:
        for n in range(T * Ni):
            i = n % T
            X = E[:, i * os_:i * os_ + nt]
            Y = (X * w[p]).sum()
            row = lambda q: symbs[p, int(q)]
            if near_tie(method, Y, symbs[p], real, 1e-3 if single else 1e-7):
                S.require(False)
            e = er[p, n] = (error_real if real else error)(S, method, Y, row, M, i)
            w[p] += mu * e * np.conj(X)
            if adaptive and i > 0:
                e0 = er[p, n - 1]
                s = (e.real * e0.real, e.imag * e0.imag) if not real else (e * e0,)
                if min(abs(q) for q in s) < 1e-7:
                    S.require(False)
                mu = (adapted_real if real else adapted)(S, mu, e, e0)
    return er, w, mu


def near_tie(method, Y, row, real, tol):
    """the error is discontinuous here, rounding decides"""
    gap = lambda v, b: np.min(abs(np.asarray(b) - v)) < tol * (1 + abs(v)) if len(b) else False
    nc = (len(row) + 1) // 2
    if method == "rde":
        return gap(abs(Y) ** 2, row[nc:].real)
    if method == "mrde":
        return gap(Y.real ** 2, row[nc:].real) or gap(Y.imag ** 2, row[nc:].imag)
    if method == "sgncma":
        return gap(abs(Y) ** 2, row[:1].real) or abs(Y.real) < tol or abs(Y.imag if not real else 1) < tol
    if method in ("sbd", "mddma", "dd"):
        d = np.sort(abs(Y - np.unique(row)))
        return len(d) > 1 and d[1] - d[0] < tol * (1 + d[0])
    return False


def kernel_run(S, dt, method, adaptive, real):
    rng = S.rng
    nm, nt, os_, T, Ni = S.int('nm', 1, cmax=3), S.int('ntaps', 1, cmax=5), S.int('os', 1, cmax=3), S.int('TrSyms', 1, cmax=9), S.int('Niter', 1, cmax=3)
    E = S.array('E', (nm, T * os_ + nt + 1 + S.int('extra', 0, cmax=3)), dt)
    wx = (.3 * S.array('wx', (nm, nm, nt), dt)).astype(dt)
    modes = rng.permutation(nm)[:S.int('nsel', 1, cmax=int(nm))]
    ns = T if method in ("sbd_data", "dd_data") else 2 * S.int('ncodes', 1, cmax=4) - 1 if method in ("rde", "mrde") else S.int('M', 1, cmax=5)
    symbs = S.array('symbs', (nm, ns), dt, gen=gen_sorted if method in ("rde", "mrde") else None)
    mu = np.dtype(dt).type(0).real.dtype.type(rng.choice([.003, .02]))
    w0, E0 = wx.copy(), E.copy()
    er, w, m = S.call(pe.train_equaliser_realvalued if real else pe.train_equaliser, E, T, Ni, os_, mu, wx, modes, adaptive, symbs, method)
    compare(S, simulate(S, E0, T, Ni, os_, mu, w0, modes, adaptive, symbs, method, real, S.single), er, w, dt)
    S.ensure("step positive and not grown", 0 < m <= mu and (adaptive or m == mu))
    S.ensure_unchanged("signal unchanged", E)


def gen_sorted(rng, shape):
    """per row: sorted codes, then the points half-way between them"""
    nc = (shape[1] + 1) // 2
    c = np.sort(rng.uniform(.2, 3, (shape[0], nc)), axis=1) + 1j * np.sort(rng.uniform(.2, 3, (shape[0], nc)), axis=1)
    return np.hstack([c, (c[:, 1:] + c[:, :-1]) / 2])


def compare(S, sim, er, w, dt):
    tol = 2e-3 if np.dtype(dt).itemsize in (4,) or dt == np.complex64 else 1e-8
    S.require(bool(np.isfinite(sim[0]).all()) and abs(sim[0]).max() < 50 and abs(sim[1]).max() < 20)
    S.ensure_array("errors of the selected modes, zero for the others", er, sim[0].shape, lambda a, q: sim[0][a, q], tol=tol, dtype=dt)
    S.ensure_array("taps after the last step, those of the other modes unchanged", w, sim[1].shape, lambda a, m, k: sim[1][a, m, k], tol=tol, dtype=dt)


@contract("C05", cases=[dict(dt=d, method=m, adaptive=a) for d in DT for m in FCT for a in (False, True)])
def train_equaliser(S, dt, method, adaptive):
    if S.symbolic:
        training(S, dt, method, adaptive, False)
    else:
        kernel_run(S, dt, method, adaptive, False)


@contract("C05", cases=[dict(dt=d, method=m, adaptive=a) for d in (np.float64, np.float32) for m in FCTR for a in (False, True)])
def train_equaliser_realvalued(S, dt, method, adaptive):
    if S.symbolic:
        training(S, dt, method, adaptive, True)
    else:
        kernel_run(S, dt, method, adaptive, True)


# ------------------------------------------------------------------ constants of the methods
def gen_alphabet(S, name):
    n = S.int(name, 1, cmax=9)
    return n, S.array('alphabet', (n,), np.complex128)


@contract("C05", cases=[dict(which=w) for w in ("modulus", "complex modulus")])
def modulus_constants(S, which):
    """fourth over second moment of the scaled alphabet (which C01 shows to have unit mean power)"""
    M, sc = S.int('M', 1, cmax=64), S.real('scaling', .1)
    if S.symbolic:
        n, al = gen_alphabet(S, 'n')
        S.by_contract(th.cal_symbols_qam, lambda S, M: al, "C01 mapping")
        S.by_contract(eq.cal_symbols_qam, lambda S, M: al, "C01 mapping")
        S.by_contract(eq.cal_scaling_factor_qam, lambda S, M: sc, "C01 mapping")
        z = lambda q: S.initial(al)[q]
    else:
        M = int(S.rng.choice([4, 8, 16, 32, 64, 128, 256, 512, 1024]))
        al = unit_alphabet(M)
        n, sc, z = len(al), 1., lambda q: al[q]
    mom = lambda f: (S.sum(n, lambda q: f(z(q)) ** 2) / n / sc ** 2) / (S.sum(n, f_ := (lambda q: f(z(q)))) / n / sc)
    if S.symbolic:
        f0 = (lambda v: S.abs2(v)) if which == "modulus" else (lambda v: S.re(v) ** 2)
        S.require(S.sum(n, lambda q: f0(z(q))) > 0)
        if which != "modulus":
            S.require(S.sum(n, lambda q: S.im(z(q)) ** 2) > 0)
    if which == "modulus":
        r = S.call(eq._cal_Rconstant, M)
        S.ensure_eq("modulus constant", r, mom(lambda v: S.abs2(v)))
    else:
        r = S.call(eq._cal_Rconstant_complex, M)
        S.ensure_eq("constant of the in-phase component", S.re(r), mom(lambda v: S.re(v) ** 2))
        S.ensure_eq("constant of the quadrature component", S.im(r), mom(lambda v: S.im(v) ** 2))


def unit_alphabet(M):
    s = np.asarray(sg.SignalQAMGrayCoded(M, 2 * M, nmodes=1).coded_symbols, dtype=complex)
    assert len(set(np.round(s, 9))) == M
    return s / np.sqrt(np.mean(abs(s) ** 2))


def levels(v):
    v = np.sort(v)
    return v[np.concatenate([[True], np.diff(v) > 1e-6])]


@contract("C05", kind="bounded", cases=[dict(M=2 ** k, method=m) for k in range(2, 11)
                                        for m in ("cma", "cma2", "sgncma", "mcma", "rde", "mrde", "sbd", "mddma", "dd", "cma_real", "sgncma_real", "dd_real")])
def constants(S, M, method):
    """bound: the square and cross QAM orders 4..1024, 40 values per partition set"""
    dt = [np.complex128, np.complex64][S.rng.integers(2)]
    if "real" in method:
        dt = FT[dt]
    tol = 1e-5
    al = unit_alphabet(M)
    r = S.call(eq.generate_symbols_for_eq, method, M, dt)
    S.ensure("type", r.dtype == dt and r.ndim == 2)
    m4 = lambda v: np.mean(v ** 4) / np.mean(v ** 2)
    if method in ("cma", "cma2", "sgncma"):
        S.ensure("modulus constant", r.shape == (1, 1) and abs(r[0, 0] - m4(abs(al))) < tol)
    elif method == "mcma":
        S.ensure("constants of the components", r.shape == (1, 1) and abs(r[0, 0] - (m4(al.real) + 1j * m4(al.imag))) < tol)
    elif method in ("cma_real", "sgncma_real"):
        S.ensure("constant of the components", r.shape == (2, 1) and np.all(abs(r - m4(al.real)) < tol))
    elif method in ("sbd", "mddma", "dd", "dd_real"):
        v = r[0] if method != "dd_real" else r[0] + 1j * r[1]
        S.ensure("the unit-power constellation", r.shape == ((2, M) if method == "dd_real" else (1, M)) and
                 np.all(abs(v[:, None] - al[None]).min(axis=0) < tol) and np.all(abs(v[:, None] - al[None]).min(axis=1) < tol))
    else:
        nc = (r.shape[1] + 1) // 2
        S.ensure("codes and the partitions between them", r.shape[0] == 1 and r.shape[1] == 2 * nc - 1)
        for part, src in ((np.real, abs(al) ** 2 if method == "rde" else al.real ** 2),) + (() if method == "rde" else ((np.imag, al.imag ** 2),)):
            lv = levels(src)
            codes, parts = r[0, :nc].copy(), r[0, nc:].copy()
            S.ensure("every radius is a code", np.all(abs(part(codes)[:, None] - lv[None]).min(axis=0) < tol))
            S.ensure("every code is a radius", np.all(abs(part(codes)[:, None] - lv[None]).min(axis=1) < tol))
            for v in np.concatenate([S.rng.uniform(0, 1.2 * lv[-1], 40), lv]):
                got = S.call(pe.partition_value, dt(0).real.dtype.type(v), parts, codes, part)
                S.ensure("nearest radius", abs(got - v) <= abs(lv - v).min() + tol)


# ------------------------------------------------------------------ the functions users call
def syms_row(S, symbs, nd, a, q):
    return symbs[q] if nd == 1 else symbs[a, q]


@contract("C05", cases=[dict(dt=d, method=m, taps=t, sel=s, apply=a) for d in DT for m in ("mcma", "sbd", "sbd_data", "dd_real", "dd_data_real", "cma_real")
                        for t in ("given", "initial") for s in (False, True) for a in (False, True) if (t == "given") + s + a != 2])
def equalise_signal(S, dt, method, taps, sel, apply):
    """the training kernel gets the samples, taps, modes, constants and lengths the caller asked for"""
    if not S.symbolic:
        return wrapper_run(S, dt, taps, sel, apply)
    real = "_real" in method
    nm, os_ = S.int('nm', 1), S.int('os', 1)
    nt, T, Ni = S.int('ntaps', 1), S.int('TrSyms', 1), S.int('Niter', 1)
    L, M = S.int('L', 1), S.int('M', 2)
    S.require(L >= T * os_ + nt)
    E = S.array('E', (nm, L), dt)
    n2 = nm * 2 if real else nm
    kt = FT[dt] if real else dt
    w = S.array('w', (n2, n2, nt), kt) if taps == "given" else None
    nsel = S.int('nsel', 1)
    modes = S.array('modes', (nsel,), np.int64, lo=0, hi=nm - 1) if sel else None
    mu = S.real('mu', 0, strict=True)
    ns = S.int('ns', 1)
    given = method not in ("mcma", "cma_real")
    symbs = S.array('symbols', (nm, ns), dt) if given else None
    const = S.array('const', (2, 1) if real else (1, 1), kt)
    nsel2 = (nsel if sel else nm) * (2 if real else 1)
    S.by_contract(eq.generate_symbols_for_eq, lambda S, m, M_, d: const, "C05 constants")
    er, wo = S.array('er', (n2, T * Ni), kt), S.array('wo', (n2, n2, nt), kt)

    def kernel(S, E_, T_, Ni_, os__, mu_, wx_, modes_, ad, symbols_, m_):
        S.ensure_array("samples", E_, (n2, L), (lambda j, q: S.ite(j < nm, lambda: S.re(E[j, q]), lambda: S.im(E[j - nm, q]))) if real else (lambda j, q: E[j, q]), dtype=kt)
        S.ensure("lengths", S.and_(S.eq(T_, T), S.eq(Ni_, Ni), S.eq(os__, os_), S.eq(mu_, mu)))
        S.ensure("method and adaptation", m_ == (method[:-5] if real else method) and ad is False)
        if taps == "given":
            S.ensure_array("given taps", wx_, (n2, n2, nt), lambda a, m, k: S.initial(w)[a, m, k], dtype=kt)
        else:
            S.ensure_array("initial taps", wx_, (n2, n2, nt), lambda a, m, k: S.ite(S.and_(S.eq(a, m), S.eq(k, nt // 2)), lambda: 1., lambda: 0.), dtype=kt)
        S.ensure_array("modes", modes_, (nsel2,), (lambda q: (S.ite(q < nsel, lambda: modes[q], lambda: modes[q - nsel] + nm) if real else modes[q])) if sel else (lambda q: q))
        if not given:
            S.ensure_array("constants", symbols_, (n2, 1), lambda a, q: S.ite(a < nm, lambda: const[0, 0], lambda: const[1, 0]) if real else const[0, 0], dtype=kt)
        else:
            S.ensure_array("symbols", symbols_, (n2, ns), (lambda a, q: S.ite(a < nm, lambda: S.re(symbs[a, q]), lambda: S.im(symbs[a - nm, q]))) if real else (lambda a, q: symbs[a, q]), dtype=kt)
        return er, wo, mu_
    S.by_contract(pe.train_equaliser_realvalued if real else pe.train_equaliser, kernel, "C05 train_equaliser")
    out = S.call(eq.equalise_signal, E, os_, mu, M, wxy=w, Ntaps=None if taps == "given" else nt, TrSyms=T, Niter=Ni, method=method, symbols=symbs, modes=modes, apply=apply)
    wr, err_ = out[1:] if apply else out
    if apply:
        sel_ = (lambda a: modes[a]) if sel else (lambda a: a)
        K = (L - nt + 1) // os_
        x = lambda j, q: S.ite(j < nm, lambda: S.re(E[j, q]), lambda: S.im(E[j - nm, q])) if real else E[j, q]
        f = lambda a, k: S.sum(n2, lambda j: S.sum(nt, lambda i: x(j, k * os_ + i) * wo[a, j, i]))
        S.ensure_array("samples filtered with the taps of the kernel", out[0], (nsel if sel else nm, K),
                       lambda a, k: S.complex(f(sel_(a), k), f(sel_(a) + nm, k)) if real else f(sel_(a), k), dtype=dt)
    S.ensure_array("taps are those of the kernel", wr, (n2, n2, nt), lambda a, m, k: wo[a, m, k], dtype=kt)
    S.ensure_array("errors are those of the kernel", err_, (n2, T * Ni), lambda a, q: er[a, q], dtype=kt)
    S.ensure_unchanged("samples unchanged", E)


ALL = ["cma", "cma2", "sgncma", "mcma", "rde", "mrde", "sbd", "mddma", "dd", "sbd_data", "cma_real", "sgncma_real", "dd_real", "dd_data_real"]


def row_constants(M, method, n2):
    """constants of a method from the constellation alone: one row per mode"""
    al = unit_alphabet(M)
    m4 = lambda v: np.mean(v ** 4) / np.mean(v ** 2)
    if method in ("cma", "cma2", "sgncma"):
        r = np.array([m4(abs(al))], complex)
    elif method == "mcma":
        r = np.array([m4(al.real) + 1j * m4(al.imag)])
    elif method == "rde":
        c = levels(abs(al) ** 2)
        r = np.concatenate([c, (c[1:] + c[:-1]) / 2]).astype(complex)
    elif method == "mrde":
        c, d = levels(al.real ** 2), levels(al.imag ** 2)
        n = max(len(c), len(d))
        c, d = [np.concatenate([v, np.full(n - len(v), v[-1])]) for v in (c, d)]
        c = c + 1j * d
        r = np.concatenate([c, (c[1:] + c[:-1]) / 2])
    elif method in ("cma_real", "sgncma_real"):
        return np.vstack([np.full((n2 // 2, 1), m4(al.real)), np.full((n2 // 2, 1), m4(al.imag))])
    elif method == "dd_real":
        return np.vstack([np.tile(al.real, (n2 // 2, 1)), np.tile(al.imag, (n2 // 2, 1))])
    else:
        r = al
    return np.tile(r, (n2, 1))


def one_training(S, E, os_, mu, M, wx, nt, T, Ni, method, adaptive, data, modes, single, custom=None):
    """what one call of equalise_signal has to give: errors, taps"""
    real = "_real" in method
    Es = np.vstack([E.real, E.imag]) if real else E
    n2 = Es.shape[0]
    if wx is None:
        wx = np.zeros((n2, n2, nt), float if real else complex)
        for a in range(n2):
            wx[a, a, nt // 2] = 1
    nt = wx.shape[-1]
    if T is None:
        T = (E.shape[1] // os_ // nt - 1) * nt
    md = np.arange(E.shape[0]) if modes is None else np.array(modes)
    md = np.concatenate([md, md + E.shape[0]]) if real else md
    if method in ("sbd_data", "dd_data_real"):
        sy = np.vstack([data.real, data.imag]) if real else data
    elif custom is not None and method in ("sbd", "mddma", "dd"):
        sy = custom if custom.ndim == 2 and custom.shape[0] == n2 else np.tile(custom, (n2, 1))
    else:
        sy = row_constants(M, method, n2)
    S.require(T > 0 and (T - 1) * os_ + nt <= E.shape[1] and sy.shape[1] >= (T if "data" in method else 1))
    return simulate(S, Es, T, Ni, os_, mu, wx, md, adaptive, sy, method[:-5] if real else method, real, single)


def wrapper_run(S, dt, taps, sel, apply):
    rng = S.rng
    S.single = dt == np.complex64
    M = int(rng.choice([4, 8, 16, 32, 64]))
    nm, nt, os_, Ni = S.int('nm', 1, cmax=3), S.int('ntaps', 1, cmax=6), S.int('os', 1, cmax=3), S.int('Niter', 1, cmax=2)
    N = S.int('N', 3 * int(nt), cmax=3 * int(nt) + 12)
    method, method2 = str(rng.choice(ALL)), str(rng.choice(ALL))
    api_, dual = bool(rng.integers(2)), bool(rng.integers(2))
    real = "_real" in method
    if dual and real != ("_real" in method2):
        method2 = "dd_real" if real else "mddma"
    mu = float(rng.choice([.002, .01]))
    if api_:
        sig = sg.SignalQAMGrayCoded(M, int(N), nmodes=int(nm), seed=[int(q) for q in rng.integers(0, 1000, int(nm))], fb=1., dtype=dt)
        data, al = np.array(sig.symbols), np.array(sig.coded_symbols)
        up = np.repeat(np.asarray(sig), int(os_), axis=1) + .1 * (rng.normal(size=(nm, N * os_)) + 1j * rng.normal(size=(nm, N * os_)))
        E = sig.recreate_from_np_array(up.astype(dt), fs=float(os_))
    else:
        al = unit_alphabet(M)
        data = rng.choice(al, (nm, N)).astype(dt)
        E = (np.repeat(data, int(os_), axis=1) + .1 * (rng.normal(size=(nm, N * os_)) + 1j * rng.normal(size=(nm, N * os_)))).astype(dt)
    E0 = np.array(E)
    n2 = 2 * nm if real else nm
    kt = FT[dt] if real else dt
    wx = None
    if taps == "given" and not (api_ and dual):
        wx = (.3 * S.array('w', (n2, n2, nt), kt)).astype(kt)
    modes = [int(q) for q in rng.permutation(nm)[:S.int('nsel', 1, cmax=int(nm))]] if sel else None
    T = None if rng.integers(2) else int(S.int('TrSyms', 1, cmax=int(N) - int(nt)))
    adaptive = bool(rng.integers(2))
    w0 = None if wx is None else wx.copy()
    both = [method, method2] if dual else [method]
    S.log['call'] = repr((both, dict(api=api_, dual=dual, M=M, mu=mu, modes=modes, T=T, adaptive=adaptive, apply=apply)))
    isdata = ["data" in m for m in both]
    kw = dict(modes=modes, apply=apply)
    if not api_ and any(isdata):
        if all(d or m in eq.NONDECISION_BASED for d, m in zip(isdata, both)):
            kw['symbols'] = data
        else:
            kw['symbols'] = np.vstack([data])
            S.require(False)
    args = (E, mu) if api_ else (E, int(os_), mu, M)
    if dual:
        args = (E, (mu, mu / 2), int(nt)) if api_ else (E, int(os_), (mu, mu / 2), M)
        if not api_:
            kw.update(wxy=wx, Ntaps=int(nt))
        out = S.call(api.dual_mode_equalisation if api_ else eq.dual_mode_equalisation, *args, TrSyms=(T, T), Niter=(Ni, 1), methods=tuple(both),
                     adaptive_stepsize=(adaptive, False), **kw)
    else:
        out = S.call(api.equalise_signal if api_ else eq.equalise_signal, *args, wxy=wx, Ntaps=None if wx is not None else int(nt), TrSyms=T, Niter=Ni, method=method,
                     adaptive_stepsize=adaptive, **kw)
    w, errs = out[1:] if apply else out
    s1 = one_training(S, E0, int(os_), mu, M, w0, int(nt), T, int(Ni), method, adaptive, data, modes, S.single)
    if dual:
        s2 = one_training(S, E0, int(os_), mu / 2, M, s1[1], int(nt), T, 1, method2, False, data, modes, S.single)
        compare(S, s1, errs[0], np.asarray(s1[1]).astype(kt), kt)
        compare(S, s2, errs[1], w, kt)
    else:
        compare(S, s1, errs, w, kt)
    if apply:
        Es = np.vstack([E0.real, E0.imag]) if real else E0
        K = (Es.shape[1] - nt + 1) // os_
        md = list(range(nm)) if modes is None else modes
        row = lambda a: np.array([(Es[:, k * os_:k * os_ + nt] * w[a]).sum() for k in range(K)])
        exp = np.array([row(a) + 1j * row(a + nm) if real else row(a) for a in md])
        if real and modes is not None and len(modes) != nm:
            pass
        S.ensure_array("equalised signal", np.asarray(out[0]), exp.shape, lambda a, k: exp[a, k], tol=1e-3 if S.single else 1e-7)
    S.ensure("samples unchanged", np.array_equal(np.asarray(E), E0))
