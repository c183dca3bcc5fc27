import numpy as np
from pyvc.spec import contract, Raised
import qampy.helpers as hp
import qampy.core.analog_frontend as af
import qampy.analog_frontend as afp
import qampy.core.equalisation.equalisation as eq
from specs.common import *

DT = [dict(nd=n, dt=d) for n in (1, 2) for d in (np.complex128, np.complex64)]


def not_flat(S, L, x):
    """some sample differs from the mean"""
    mu = mean(S, L, x)
    S.require(S.mean(L, lambda q: S.abs2(x(q) - mu)) > (0 if S.symbolic else 1e-3))
    return mu


def mean(S, L, x):
    return S.complex(S.mean(L, lambda q: S.re(x(q))), S.mean(L, lambda q: S.im(x(q))))


# ------------------------------------------------------------------------------------------- normalise and centre
@contract("C13", cases=DT)
def normalise_and_center(S, nd, dt):
    sh = (S.int('nm', 1, cmax=4), S.int('L', 2, cmax=20))[2 - nd:]
    L = sh[-1]
    E = S.array('E', sh, dt)
    at = lambda m: (lambda q: E[m + (q,)])
    mu = lambda m: mean(S, L, at(m))
    pw = lambda m: S.mean(L, lambda q: S.abs2(at(m)(q) - mu(m)))
    S.assume_forall(sh[:-1], lambda *m: pw(m) > 1e-6)
    r = S.call(hp.normalise_and_center, E)
    S.ensure_array("shifted by the mean and scaled by the root of the power", r, sh, lambda *i: (E[i] - mu(i[:-1])) / S.sqrt(pw(i[:-1])), tol=1e-3)

    def mode(*m):
        z = lambda q: S.elem(r, *m, q)
        S.ensure_eq("zero mean (in-phase)", S.mean(L, lambda q: S.re(z(q))), 0., tol=1e-4)
        S.ensure_eq("zero mean (quadrature)", S.mean(L, lambda q: S.im(z(q))), 0., tol=1e-4)
        S.ensure_eq("unit mean power", S.mean(L, lambda q: S.abs2(z(q))), 1., tol=1e-3)
        S.ensure("the scale is positive", 1 / S.sqrt(pw(m)) > 0)
    S.forall(sh[:-1], mode) if nd > 1 else mode()
    S.ensure_unchanged("input unchanged", E)


@contract("C13", cases=[dict(nd=n, dt=np.complex128) for n in (1, 2)])
def normalise_on_pilots(S, nd, dt):
    """the pilot positions alone have zero mean and unit power afterwards"""
    sh = (S.int('nm', 1, cmax=4), S.int('L', 2, cmax=20))[2 - nd:]
    L, P = sh[-1], S.int('P', 2, cmax=12)
    E = S.array('E', sh, dt)
    ix = S.array('ix', (P,), np.int64, gen=lambda rng, s: rng.integers(0, int(L), s))
    S.assume_forall((P,), lambda q: S.and_(ix[q] >= 0, ix[q] < L))
    at = lambda m: (lambda q: E[m + (ix[q],)])
    mu = lambda m: mean(S, P, at(m))
    pw = lambda m: S.mean(P, lambda q: S.abs2(at(m)(q) - mu(m)))
    S.assume_forall(sh[:-1], lambda *m: pw(m) > 1e-6)
    r = S.call(hp.normalise_and_center_pil, E, ix)
    S.ensure_array("every sample shifted and scaled by what the pilots need", r, sh, lambda *i: (E[i] - mu(i[:-1])) / S.sqrt(pw(i[:-1])), tol=1e-3)

    def mode(*m):
        z = lambda q: S.elem(r, *m, ix[q])
        S.ensure_eq("zero mean of the pilots (in-phase)", S.mean(P, lambda q: S.re(z(q))), 0., tol=1e-4)
        S.ensure_eq("zero mean of the pilots (quadrature)", S.mean(P, lambda q: S.im(z(q))), 0., tol=1e-4)
        S.ensure_eq("unit mean power of the pilots", S.mean(P, lambda q: S.abs2(z(q))), 1., tol=1e-3)
    S.forall(sh[:-1], mode) if nd > 1 else mode()
    S.ensure_unchanged("input unchanged", E)
    S.ensure_unchanged("positions unchanged", ix)


# ------------------------------------------------------------------------------------------- IQ balance
def moments(S, L, x, y):
    return S.sum(L, lambda q: x(q) * x(q)), S.sum(L, lambda q: y(q) * y(q)), S.sum(L, lambda q: x(q) * y(q))


@contract("C13", cases=[dict(dt=d) for d in (np.complex128, np.complex64)])
def iq_imbalance(S, dt):
    L = S.int('L', 3, cmax=20)
    E = S.array('E', (L,), dt)
    mr, mi = S.mean(L, lambda q: S.re(E[q])), S.mean(L, lambda q: S.im(E[q]))
    I = lambda q: S.re(E[q]) - mr
    Q = lambda q: S.im(E[q]) - mi
    pi_, pq, c = moments(S, L, I, Q)
    S.require(pi_ > 1e-3)
    S.require(pq - c * c / pi_ > 1e-3)          # the quadrature is not a multiple of the in-phase component
    r = S.call(af.comp_IQ_inbalance, E)
    # what orthogonalising and rescaling the quadrature gives
    O = lambda q: Q(q) - c / pi_ * I(q)
    po = S.sum(L, lambda q: O(q) * O(q))
    S.lemma("power of the orthogonalised quadrature", S.eq(po, pq - c * c / pi_)) if S.symbolic else None
    S.ensure_array("centred in-phase component kept, quadrature orthogonalised and rescaled", r, (L,), lambda q: S.complex(I(q), O(q) * S.sqrt(pi_ / po)), tol=2e-3)
    a, b, x = moments(S, L, lambda q: S.re(S.elem(r, q)), lambda q: S.im(S.elem(r, q)))
    S.ensure_eq("no correlation", x, 0., tol=1e-3)
    S.ensure_eq("power of the quadrature", b, pi_, tol=2e-3)
    S.ensure_eq("equal power", b, a, tol=2e-3)
    S.ensure_unchanged("input unchanged", E)


@contract("C13", kind="bounded", trials=25)
def iq_imbalance_of_modes(S):
    """also for several modes in one array"""
    sh = (S.int('nm', 1, cmax=3), S.int('L', 4, cmax=40))
    g = lambda: S.rng.standard_normal(sh)
    k, p = S.rng.uniform(.1, 5), S.rng.uniform(-1.4, 1.4)
    I, Q = g(), g()
    z = I + 1j * k * (np.sin(p) * I + np.cos(p) * Q) + S.rng.standard_normal() + 1j
    r = np.asarray(S.call(af.comp_IQ_inbalance, z))
    S.ensure("finite", np.isfinite(r).all())
    S.ensure("equal power", np.isclose((r.real ** 2).sum(), (r.imag ** 2).sum()))
    S.ensure("no correlation", abs((r.real * r.imag).sum()) < 1e-8 * (r.real ** 2).sum())
    S.ensure("in-phase component kept", np.allclose(r.real, z.real - z.real.mean()))


@contract("C13", kind="bounded", trials=25)
def orthonormalised_statistics(S):
    nm, N, os = S.int('nm', 1, cmax=3), S.int('N', 6, cmax=40), S.int('os', 1, cmax=3)
    g = lambda: S.rng.standard_normal((nm, N * os))
    I, Q = g(), g()
    z = 3 * I + 2j * (.6 * I + .8 * Q) + 1 - 2j
    keep = z.copy()
    r = S.call(af.orthonormalize_signal, z, os)
    s = r[:, ::os]
    S.ensure("symbols centred", np.allclose(s.mean(1), 0))
    S.ensure("unit power at the symbols", np.allclose((abs(s) ** 2).mean(1), 1))
    c = r - r.mean(1)[:, None]
    S.ensure("equal power in both components", np.allclose((c.real ** 2).mean(1), (c.imag ** 2).mean(1)))
    S.ensure("no correlation", np.allclose((c.real * c.imag).mean(1), 0))
    S.ensure("input unchanged", np.array_equal(z, keep))
    # in-phase direction kept, second component orthogonalised against it
    x, y = (z - z.mean(1)[:, None]).real, (z - z.mean(1)[:, None]).imag
    y = y - x * (x * y).mean(1)[:, None] / (x * x).mean(1)[:, None]
    w = x / np.sqrt((x * x).mean(1))[:, None] + 1j * y / np.sqrt((y * y).mean(1))[:, None]
    w = w - w[:, ::os].mean(1)[:, None]
    S.ensure("the orthonormalised components", np.allclose(r, w / np.sqrt((abs(w[:, ::os]) ** 2).mean(1))[:, None]))


# ------------------------------------------------------------------------------------------- rescaling, mid point
@contract("C13", cases=[dict(dt=d, per=p) for d in (np.complex128, np.complex64, np.float64) for p in ("one", "each", "single")])
def rescale(S, dt, per):
    sh = (S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20))[1 if per == "single" else 0:]
    L = sh[-1]
    E = S.array('E', sh, dt)
    sw = S.array('swing', sh[:1], np.float64, gen=lambda rng, s: rng.uniform(.2, 3, s)) if per == "each" else S.real('swing', crange=(.2, 3))
    swing = (lambda m: sw[m[0]]) if per == "each" else (lambda m: sw)
    cp = np.dtype(dt).kind == 'c'
    top = lambda m: S.imax(S.max(L, lambda q: abs_(S, S.re(E[m + (q,)]))), S.max(L, lambda q: abs_(S, S.im(E[m + (q,)])))) if cp else S.max(L, lambda q: abs_(S, E[m + (q,)]))
    S.assume_forall(sh[:-1], lambda *m: top(m) > 0)
    S.assume_forall(sh[:-1], lambda *m: swing(m) > 0)
    r = S.call(hp.rescale_signal, E, sw)
    S.ensure_array("scaled to the swing", r, sh, lambda *i: E[i] / top(i[:-1]) * swing(i[:-1]), tol=1e-4)

    def inside(*i):
        m = i[:-1]
        for part in ((S.re, S.im) if cp else (lambda x: x,)):
            S.lemma("largest component", S.le(abs_(S, part(E[i])), top(m)))
            S.ensure("inside the swing", S.le(abs_(S, part(E[i]) / top(m) * swing(m)), swing(m) * (1 if S.symbolic else 1 + 1e-6)))
    S.forall(sh, inside)
    if not S.symbolic:
        a = np.asarray(r)
        S.ensure("the largest component is the swing", np.allclose(np.maximum(abs(a.real).max(-1), abs(a.imag).max(-1)), np.asarray(sw) * np.ones(sh[:-1]), rtol=1e-5))
    S.ensure_unchanged("input unchanged", E)


def abs_(S, x):
    return S.ite(x >= 0, x, -x)


@contract("C13", cases=[dict(dt=d) for d in (np.complex128, np.float64)])
def mid_point(S, dt):
    L = S.int('L', 1, cmax=20)
    E = S.array('E', (L,), dt)
    mid = S.cplx('mid') if np.dtype(dt).kind == 'c' else S.real('mid')
    r = S.call(hp.set_mid_point, E, mid)
    centre = lambda part: (S.max(L, lambda q: part(E[q])) + S.min(L, lambda q: part(E[q]))) / 2
    c = S.complex(centre(S.re), centre(S.im)) if np.dtype(dt).kind == 'c' else centre(lambda x: x)
    S.ensure_array("moved so that the middle of the range is at the requested position", r, (L,), lambda q: E[q] - c + mid)
    S.ensure_unchanged("input unchanged", E)
