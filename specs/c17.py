import numpy as np
import qampy.core.impairments as ci
import qampy.core.digital_pre_compensation as dpc
import qampy.core.pythran_dsp as pd
import qampy.signals as sg
import qampy.impairments as pi_
from pyvc.spec import contract, Raised
from specs.common import *


def comp(S, x, dt):
    """the components of a sample"""
    return ((S.re, "in-phase"), (S.im, "quadrature")) if np.dtype(dt).kind == 'c' else ((lambda v: v, "real"),)


def abs_(S, x):
    return S.ite(x >= 0, x, -x)


def top(S, at, L, dt):
    if np.dtype(dt).kind == 'c':
        return S.imax(S.max(L, lambda q: abs_(S, S.re(at(q)))), S.max(L, lambda q: abs_(S, S.im(at(q)))))
    return S.max(L, lambda q: abs_(S, at(q)))


# ------------------------------------------------------------------------------------------- clipper
@contract("C17", cases=[dict(nd=n, dt=d) for n in (1, 2) for d in (np.complex128, np.complex64, np.float64)])
def clipper(S, nd, dt):
    nm, L = S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20)
    E = S.array('E', (nm, L)[2 - nd:], dt)
    c = S.real('level', crange=(.05, 2))
    S.require(c >= 0)
    r = S.call(dpc.clipper, E, c)
    sh = (nm, L) if nd == 2 else (1, L)

    def one(m, q):
        e, v = (E[m, q] if nd == 2 else E[q]), S.elem(r, m, q)
        for part, label in comp(S, e, dt):
            x, y = part(e), (S.im(v) if label == 'quadrature' else S.re(v))
            S.ensure(label + " unchanged inside the range", S.implies(S.and_(x <= c, x >= -c), S.eq(y, x)))
            S.ensure(label + " at the limit outside", S.and_(S.implies(x > c, S.eq(y, c)), S.implies(x < -c, S.eq(y, -c))))
        if np.dtype(dt).kind != 'c':
            S.ensure_eq("no quadrature", S.im(v), 0.)
    S.forall(sh, one)
    S.ensure_unchanged("input unchanged", E)


# ------------------------------------------------------------------------------------------- quantisers
@contract("C17", cases=[dict(nbits=b, dt=d, scale=s) for b in (1, 2, 3, 4, 6, 8) for d in (np.complex128, np.float64) for s in (False, True)])
def quantiser(S, nbits, dt, scale):
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=12)
    E = S.array('E', (nm, L), dt)
    n = 2 ** nbits
    big = (lambda m: S.max(L, lambda q: S.abs(E[m, q]))) if scale else (lambda m: 1.)
    if scale:
        S.assume_forall((nm,), lambda m: big(m) > 0)
    r = S.call(ci.quantize_signal, E, nbits, scale, False)
    step = 2. / (n - 1)

    def one(m, q):
        for part, label in comp(S, E[m, q], dt):
            x, y = part(E[m, q]) / big(m), part(S.elem(r, m, q))
            k = (y + 1) / step
            S.ensure(label + ": one of the levels", S.and_(is_int(S, k), y >= -1, y <= (1 if S.symbolic else 1 + 1e-9)))
            if not S.symbolic and min(abs(x - (-1 + j * step)) for j in range(n)) < 1e-6:
                continue                        # rounding decides
            S.ensure(label + ": the level above", S.implies(S.and_(x >= -1, x < 1 - step), S.and_(y > x, y <= x + step)))
            S.ensure(label + ": clipped below", S.implies(x < -1, S.eq(y, -1.)))
            S.ensure(label + ": clipped above", S.implies(x >= 1 - step, S.eq(y, 1.)))
    S.forall((nm, L), one)
    S.ensure_unchanged("input unchanged", E)


def is_int(S, k):
    return S.is_integer(k) if S.symbolic else abs(k - round(k)) < 1e-3


@contract("C17", cases=[dict(nbits=b, dt=d) for b in (2, 5) for d in (np.complex128, np.complex64)])
def quantiser_normalised(S, nbits, dt):
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=12)
    E = S.array('E', (nm, L), dt)
    import qampy.helpers as hp
    r = S.call(ci.quantize_signal, E, nbits, True, True)
    w = S.call(hp.normalise_and_center, S.call(ci.quantize_signal, E, nbits, True, False))
    S.ensure_array("the quantised signal, normalised", r, (nm, L), lambda m, q: S.elem(w, m, q))


@contract("C17", cases=[dict(nbits=b, dt=d, ri=i, ro=o) for b in (1, 3, 6) for d in (np.complex128, np.complex64) for i in (False, True) for o in (False, True)])
def mid_quantiser(S, nbits, dt, ri, ro):
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=12)
    E = qam_signal(S, 'E', (nm, L), dt, coded=None, M=4)
    n, d = 2 ** nbits, 2. / 2 ** nbits
    tp = lambda m: top(S, lambda q: E[m, q], L, dt)
    sc = tp if ri else (lambda m: 1.)
    if ri:
        S.assume_forall((nm,), lambda m: tp(m) > 0)
    out = S.imax(S.max(nm, lambda m: S.max(L, lambda q: abs_(S, S.re(E[m, q])))), S.max(nm, lambda m: S.max(L, lambda q: abs_(S, S.im(E[m, q]))))) if ro else 1.
    r = S.call(ci.quantize_signal_New, E, nbits, ri, ro)
    S.ensure("still a signal object", S.cls(r) is S.cls(E))
    if ro and S.symbolic:
        S.require(out > 0)

    def one(m, q):
        for part, label in comp(S, E[m, q], dt):
            x, y = part(E[m, q]) / sc(m), part(S.elem(r, m, q)) / out
            k = (y + 1 - d / 2) / d
            S.ensure(label + ": one of the levels", S.and_(is_int(S, k), y >= -1 + d / 2 - tiny(S), y <= 1 - d / 2 + tiny(S)))
            S.ensure(label + ": the nearest level", S.implies(S.and_(x >= -1, x <= 1), S.and_(y - x <= d / 2 + tiny(S), x - y <= d / 2 + tiny(S))))
            S.ensure(label + ": clipped", S.and_(S.implies(x > 1, S.eq(y, 1 - d / 2)), S.implies(x < -1, S.eq(y, -1 + d / 2))) if S.symbolic else
                     (not abs(x) > 1 or np.isclose(y, np.sign(x) * (1 - d / 2), atol=1e-5)))
    S.forall((nm, L), one)
    S.ensure_unchanged("input unchanged", E)


def tiny(S):
    return 0 if S.symbolic else 1e-5


# ------------------------------------------------------------------------------------------- amplifier
@contract("C17", cases=[dict(nd=n, dt=d) for n in (1, 2) for d in (np.complex128, np.complex64, np.float64)])
def amplifier(S, nd, dt):
    nm, L = S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20)
    sh = (nm, L)[2 - nd:]
    E = S.array('E', sh, dt)
    v = S.real('volt', crange=(.1, 5))
    if nd == 1:
        t = top(S, lambda q: E[q], L, dt)
    else:
        t = S.imax(S.max(nm, lambda m: S.max(L, lambda q: abs_(S, S.re(E[m, q])))), S.max(nm, lambda m: S.max(L, lambda q: abs_(S, S.im(E[m, q]))))) if np.dtype(dt).kind == 'c' else S.max(nm, lambda m: S.max(L, lambda q: abs_(S, E[m, q])))
    S.require(t > 0)
    S.require(v > 0)
    r = S.call(ci.ideal_amplifier_response, E, v)
    S.ensure_array("scaled so that the largest component is the voltage", r, sh, lambda *i: E[i] / t * v)
    if not S.symbolic:
        a = np.asarray(r)
        S.ensure_eq("largest component", max(abs(a.real).max(), abs(a.imag).max()), v, tol=1e-5)
    S.ensure_unchanged("input unchanged", E)


# ------------------------------------------------------------------------------------------- lookup table
@contract("C17", cases=[dict(dt=d) for d in (np.complex128, np.complex64)])
def table_average(S, dt):
    L, N = S.int('L', 1, cmax=30), S.int('N', 1, cmax=6)
    err = S.array('err', (L,), dt)
    P = S.int('P', 1, cmax=4)
    iI = S.array('iI', (L,), np.int64, gen=lambda rng, s: rng.integers(0, int(N), s))
    iQ = S.array('iQ', (L,), np.int64, gen=lambda rng, s: rng.integers(0, int(N), s))
    S.assume_forall((L,), lambda q: S.and_(iI[q] >= 0, iI[q] < N, iQ[q] >= 0, iQ[q] < N))
    r = S.call(pd.cal_lut_avg, err, iI, iQ, N)

    def avg(ix, part):
        def f(p):
            c = S.count(L, lambda q: S.eq(ix[q], p))
            # (a pattern that does not occur has an empty sum: its entry is zero)
            return S.sum(L, lambda q: S.ite(S.eq(ix[q], p), lambda: part(err[q]), lambda: 0.)) / S.ite(S.eq(c, 0), lambda: 1, lambda: c)
        return f
    aI, aQ = avg(iI, S.re), avg(iQ, S.im)
    S.ensure_array("mean error of every pattern", r, (N,), lambda p: S.complex(aI(p), aQ(p)), tol=1e-4)
    for a in (err, iI, iQ):
        S.ensure_unchanged("input unchanged", a)


@contract("C17", kind="bounded", trials=40)
def lookup_table(S):
    """the whole path: patterns around every symbol, errors averaged per pattern"""
    rng = S.rng
    M, mem = [4, 16, 64][rng.integers(0, 3)], int(rng.choice([1, 3]))
    al = np.array(sg.cal_symbols_qam(M) if hasattr(sg, 'cal_symbols_qam') else sg.theory.cal_symbols_qam(M))
    L = S.int('L', 5, cmax=200)
    tx = al[rng.integers(0, M, L)]
    rx = tx + .3 * (rng.standard_normal(L) + 1j * rng.standard_normal(L))
    sel = None if rng.integers(0, 2) else rng.integers(0, 4, L) > 0
    cplx = M == 4 and bool(rng.integers(0, 2))
    ks = [x.copy() for x in (tx, rx, al)]
    ea, iI, iQ = dpc.cal_lut(tx, rx, al, mem, sel, not cplx)
    S.ensure("input unchanged", all(np.array_equal(a, b) for a, b in zip(ks, (tx, rx, al))))
    use = np.arange(L) if sel is None else np.nonzero(sel)[0]
    win = lambda n: [(n - mem // 2 + k) % L for k in range(mem)]
    pI = [tuple(tx[win(n)]) if cplx else tuple(np.round(tx[win(n)].real, 9)) for n in use]
    pQ = [tuple(tx[win(n)]) if cplx else tuple(np.round(tx[win(n)].imag, 9)) for n in use]
    e = (tx - rx)[use]
    S.ensure("one index per used symbol", len(iI) == len(use) and len(iQ) == len(use))
    for pats, ix, part in ((pI, iI, e.real), (pQ, iQ, e.imag)):
        S.ensure("one entry per pattern", len(set(zip(pats, [int(x) for x in ix]))) == len(set(pats)) == len(set(int(x) for x in ix)))
        for p in set(pats):
            w = [k for k in range(len(pats)) if pats[k] == p]
            got = ea[ix[w[0]]]
            S.ensure_eq("mean error over the pattern", got.real if part is e.real or np.array_equal(part, e.real) else got.imag, part[w].mean(), tol=1e-9)
    unusedI = np.setdiff1d(np.arange(len(ea)), iI)
    S.ensure("patterns that do not occur stay zero", np.all(ea[unusedI].real == 0))


@contract("C17", kind="bounded", trials=15)
def transmitter_chain(S):
    """clipping, quantisation and amplification as used by the transmitter simulation"""
    rng = S.rng
    s = sg.SignalQAMGrayCoded(16, 200, nmodes=2, fb=10e9).resample(20e9, beta=.1)
    k = s.copy()
    cr, b = rng.uniform(.5, .99), int(rng.integers(2, 8))
    r = np.asarray(pi_.sim_DAC_response(s, enob=0, clip_rat=cr, quant_bits=b))
    z = np.asarray(s)
    tp = np.maximum(abs(z.real).max(1), abs(z.imag).max(1))[:, None]
    z = z / tp / cr
    z = np.clip(z.real, -1, 1) + 1j * np.clip(z.imag, -1, 1)
    d = 2 / 2 ** b
    for a, w in ((r.real, z.real), (r.imag, z.imag)):
        S.ensure("one of the levels", np.allclose((a + 1 - d / 2) / d, np.round((a + 1 - d / 2) / d)))
        S.ensure("nearest level", abs(a - w).max() <= d / 2 + 1e-9)
    S.ensure("signal unchanged", np.array_equal(np.asarray(s), np.asarray(k)))
    v = rng.uniform(.2, 1.5)
    a = np.asarray(ci.ideal_amplifier_response(s, v))
    S.ensure_eq("amplified to the voltage", max(abs(a.real).max(), abs(a.imag).max()), v)
