import numpy as np
import scipy.fft as sf
from pyvc.spec import contract, Raised
import qampy.core.impairments as ci
import qampy.impairments as pi_
import qampy.signals as sg
from specs.common import *

DTS = [dict(dt=np.complex128), dict(dt=np.complex64)]


def rot(S, th, a, b, sign=1):
    c, s = S.cos(th), sign * S.sin(th)
    return c * a - s * b, s * a + c * b


def energy(S, *xs):
    e = 0
    for x in xs:
        e = e + S.abs2(x)
    return e


def spectrum(S, x):
    """the spectrum that the impairments work on"""
    return S.call(sf.fft, S.call(sf.ifftshift, x, axes=-1), axis=-1)


def same(S, label, r, a, shape, **k):
    S.ensure_array(label, r, shape, lambda *i: S.elem(a, *i), **k)


# ------------------------------------------------------------------------------------------- polarisation rotation
@contract("C12", cases=DTS)
def rotate_field(S, dt):
    L = S.int('L', 1, cmax=20)
    E = S.array('E', (2, L), dt)
    th = S.real('theta', crange=(-7, 7))
    r = S.call(ci.rotate_field, E, th)
    S.ensure_array("rotation of the two polarisations", r, (2, L), lambda i, n: rot(S, th, E[0, n], E[1, n])[0] if isinstance(i, int) and i == 0 else
                   S.ite(S.eq(i, 0), rot(S, th, E[0, n], E[1, n])[0], rot(S, th, E[0, n], E[1, n])[1]))
    S.forall((L,), lambda n: S.ensure_eq("energy of every sample", energy(S, S.elem(r, 0, n), S.elem(r, 1, n)), energy(S, E[0, n], E[1, n])))
    b = S.call(ci.rotate_field, r, -th)
    same(S, "undone by the opposite angle", b, E, (2, L))
    S.ensure_unchanged("field unchanged", E)


# ------------------------------------------------------------------------------------------- PMD
def pmd_bin(S, th, t, om, a, b):
    """what one frequency component goes through"""
    x, y = rot(S, th, a, b)
    p = om * t / 2
    x, y = x * S.complex(S.cos(p), -S.sin(p)), y * S.complex(S.cos(p), S.sin(p))
    return rot(S, th, x, y, -1)


@contract("C12", cases=DTS)
def pmd(S, dt):
    L = S.int('L', 1, cmax=20)
    E = S.array('E', (2, L), dt)
    th, t, fs = S.real('theta', crange=(-7, 7)), S.real('dgd', crange=(-3, 3)), S.real('fs', crange=(.3, 3))
    S.require(fs > 0)
    r = S.call(ci.apply_PMD_to_field, E, th, t, fs)
    A, B = spectrum(S, E), spectrum(S, r)
    # bins of the spectrum: bin k of the centred spectrum is at frequency fs*(k/L - 1/2)
    A, B = S.call(sf.fftshift, A, axes=-1), S.call(sf.fftshift, B, axes=-1)
    om = lambda k: 2 * S.pi() * (k * (fs / L) - fs / 2)
    want = lambda k: pmd_bin(S, th, t, om(k), S.elem(A, 0, k), S.elem(A, 1, k))
    S.forall((L,), lambda k: S.ensure_eq("component of the first mode", S.elem(B, 0, k), want(k)[0], tol=1e-4))
    S.forall((L,), lambda k: S.ensure_eq("component of the second mode", S.elem(B, 1, k), want(k)[1], tol=1e-4))
    S.forall((L,), lambda k: S.ensure_eq("energy of every frequency component", energy(S, S.elem(B, 0, k), S.elem(B, 1, k)),
                                         energy(S, S.elem(A, 0, k), S.elem(A, 1, k)), tol=1e-4))
    if not S.symbolic:
        S.ensure_eq("total energy", (abs(np.asarray(r, complex)) ** 2).sum(), (abs(np.asarray(E, complex)) ** 2).sum(), tol=1e-4)
    b = S.call(ci.apply_PMD_to_field, r, th, -t, fs)
    same(S, "undone by the opposite delay", b, E, (2, L), tol=1e-4)
    S.ensure("type kept", S.dtype(r) == np.dtype(dt))
    S.ensure_unchanged("field unchanged", E)


# ------------------------------------------------------------------------------------------- dispersion
@contract("C12", cases=DTS)
def dispersion(S, dt):
    nm, L = S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20)
    E = S.array('E', (nm, L), dt)
    fs, D, l, wl = S.real('fs', crange=(1e10, 1e11)), S.real('D', crange=(-2e-5, 2e-5)), S.real('l', crange=(-1e5, 1e5)), S.real('wl0', crange=(1.2e-6, 1.7e-6))
    S.require(fs > 0)
    S.require(wl > 0)
    r = S.call(ci.add_dispersion, E, fs, D, l, wl)
    A, B = spectrum(S, E), spectrum(S, r)

    def want(m, k):
        j = S.ite(2 * k < L, k, k - L) * 1.
        om = 2 * S.pi() * j / (L * (1 / fs))
        ph = .5 * om * om * (D * wl * wl / (2.99792458e8 * S.pi() * 2)) * l
        return S.elem(A, m, k) * S.complex(S.cos(ph), -S.sin(ph))
    S.forall((nm, L), lambda m, k: S.ensure_eq("every component turned by the dispersive phase", S.elem(B, m, k), want(m, k), tol=1e-3))
    S.forall((nm, L), lambda m, k: S.ensure_eq("energy of every component", S.abs2(S.elem(B, m, k)), S.abs2(S.elem(A, m, k)), tol=1e-3))
    if not S.symbolic:
        S.ensure_eq("total energy", (abs(np.asarray(r, complex)) ** 2).sum(1), (abs(np.asarray(E, complex)) ** 2).sum(1), tol=1e-4)
    b = S.call(ci.add_dispersion, r, fs, -D, l, wl)
    same(S, "undone by the opposite dispersion", b, E, (nm, L), tol=1e-4)
    S.ensure_unchanged("field unchanged", E)


# ------------------------------------------------------------------------------------------- phase noise, carrier offset, modal delay
@contract("C12", cases=[dict(nd=n, dt=d) for n in (1, 2) for d in (np.complex128, np.complex64)])
def phase_noise(S, nd, dt):
    sh = (S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20))[2 - nd:]
    E = S.array('E', sh, dt)
    df, fs = S.real('df', crange=(0, 1)), S.real('fs', crange=(.3, 3))
    S.require(df >= 0)
    S.require(fs > 0)
    ph = S.array('ph', sh, np.float64)
    S.recorder()
    if S.symbolic:
        S.by_contract(ci.phase_noise, lambda S_, sz, df_, fs_: ph, "C12/phase_walk")
        r = S.call(ci.apply_phase_noise, E, df, fs)
    else:
        r = replaced(ci, 'phase_noise', lambda sz, a, b: ph, lambda: ci.apply_phase_noise(E, df, fs))
    S.ensure_array("turned by the phase noise of its sample", r, sh, lambda *i: E[i] * S.complex(S.cos(ph[i]), S.sin(ph[i])), tol=1e-4)
    S.forall(sh, lambda *i: S.ensure_eq("magnitude", S.abs2(S.elem(r, *i)), S.abs2(E[i]), tol=1e-4))
    S.ensure("type kept", S.dtype(r) == np.dtype(dt))
    S.ensure_unchanged("field unchanged", E)


def replaced(mod, name, new, f):
    old = getattr(mod, name)
    setattr(mod, name, new)
    try:
        return f()
    finally:
        setattr(mod, name, old)


@contract("C12", cases=[dict(nd=n) for n in (1, 2)])
def phase_walk(S, nd):
    """the phase noise array is one random walk per mode"""
    sh = (S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20))[2 - nd:]
    df, fs = S.real('df', crange=(0, 1)), S.real('fs', crange=(.3, 3))
    S.require(df >= 0)
    S.require(fs > 0)
    if S.symbolic:
        r = S.call(ci.phase_noise, sh, df, fs)
        f = S.it.fresh_arrays['random'][-1]
    else:
        f = S.array('steps', sh, np.float64)
        seen = []
        r = replaced(np.random, 'normal', lambda loc=0, scale=1, size=None: (seen.append((loc, scale, tuple(size))), f)[1], lambda: ci.phase_noise(sh, df, fs))
        S.ensure("one draw of the Wiener increments", len(seen) == 1 and seen[0][0] == 0 and np.isclose(seen[0][1], np.sqrt(2 * np.pi * df / fs)) and seen[0][2] == tuple(sh))
    S.ensure_array("sum of the increments so far, per mode", r, sh, lambda *i: S.sum(i[-1] + 1, lambda q: S.elem(f, *(i[:-1] + (q,)))))


@contract("C12", cases=[dict(nd=n, dt=d) for n in (1, 2) for d in (np.complex128, np.complex64)])
def carrier_offset(S, nd, dt):
    sh = (S.int('nm', 1, cmax=4), S.int('L', 1, cmax=20))[2 - nd:]
    E = S.array('E', sh, dt)
    fo, fs = S.real('fo', crange=(-1, 1)), S.real('fs', crange=(.3, 3))
    S.require(fs > 0)
    r = S.call(ci.add_carrier_offset, E, fo, fs)
    ph = lambda n: 2 * S.pi() * n * fo / fs
    S.ensure_array("turned by the carrier offset", r, sh, lambda *i: E[i] * S.complex(S.cos(ph(i[-1])), S.sin(ph(i[-1]))), tol=1e-3)
    S.forall(sh, lambda *i: S.ensure_eq("magnitude", S.abs2(S.elem(r, *i)), S.abs2(E[i]), tol=1e-4))
    b = S.call(ci.add_carrier_offset, r, -fo, fs)
    same(S, "undone by the opposite offset", b, E, sh, tol=1e-4)
    S.ensure_unchanged("field unchanged", E)


@contract("C12", cases=[dict(nm=n, dt=d) for n in (1, 2, 3) for d in (np.complex128, np.complex64)])
def modal_delay(S, nm, dt):
    L = S.int('L', 1, cmax=20)
    E = S.array('E', (nm, L), dt)
    dl = [S.int('d%d' % i, cmin=-45, cmax=45) for i in range(nm)]
    arr = lambda sg_: S.array_of((nm,), np.int64, lambda i: dl[i] * sg_ if isinstance(i, int) else pick(S, i, [sg_ * d for d in dl]))
    delay = arr(1)
    r = S.call(ci.add_modal_delay, E, delay)
    S.ensure_array("every mode moved by its own delay", r, (nm, L), lambda m, n: E[m, (n - pick(S, m, dl)) % L])
    b = S.call(ci.add_modal_delay, r, arr(-1))
    same(S, "undone by the opposite delay", b, E, (nm, L))
    S.ensure_unchanged("field unchanged", E)


def pick(S, i, xs):
    r = xs[-1]
    for k in range(len(xs) - 2, -1, -1):
        r = S.ite(S.eq(i, k), xs[k], r)
    return r


# ------------------------------------------------------------------------------------------- signal objects
def random_steps(S, fn, *a, **k):
    """call that draws random numbers, always the same ones"""
    np.random.seed(4711)
    return S.call(fn, *a, **k)


def signal(S, nm, dt=np.complex128):
    L = S.int('L', 2, cmax=20)
    fs, fb = S.real('fs', crange=(.3, 3)), S.real('fb', crange=(.3, 3))
    S.require(fs > 0)
    S.require(fb > 0)
    return qam_signal(S, 'E', (nm, L), dt, None, M=4, fs=fs, fb=fb), L, fs, fb


def carries(S, r, sig, fs, fb):
    S.ensure("still a signal object", S.cls(r) is S.cls(sig))
    S.ensure_eq("sampling rate", S.attr(r, 'fs'), fs)
    S.ensure_eq("symbol rate", S.attr(r, 'fb'), fb)


@contract("C12", cases=[dict(what=w, via=v) for w in ("pmd", "offset", "dispersion", "delay") for v in ("function", "simulation")])
def signal_objects(S, what, via):
    """the functions for signal objects use the object's own sampling rate"""
    sig, L, fs, fb = signal(S, 2)
    if what == "pmd":
        th, t = S.real('theta', crange=(-7, 7)), S.real('dgd', crange=(-3, 3))
        r = S.call(pi_.apply_PMD, sig, th, t) if via == "function" else S.call(pi_.simulate_transmission, sig, dgd=t, theta=th)
        w = S.call(ci.apply_PMD_to_field, sig, th, t, fs)
    elif what == "offset":
        fo = S.real('fo', crange=(-1, 1))
        r = S.call(pi_.add_carrier_offset, sig, fo) if via == "function" else S.call(pi_.simulate_transmission, sig, freq_off=fo)
        w = S.call(ci.add_carrier_offset, sig, fo, fs)
    elif what == "dispersion":
        D, l = S.real('D', crange=(-20, 20)), S.real('l', crange=(0, 1e12)) if via == "function" else 1
        r = S.call(pi_.add_dispersion, sig, D, l) if via == "function" else S.call(pi_.simulate_transmission, sig, dispersion=D)
        w = S.call(ci.add_dispersion, sig, fs, D, l)
    else:
        dl = [S.int('d%d' % i, cmin=-45, cmax=45) for i in range(2)]
        delay = S.array_of((2,), np.int64, lambda i: pick(S, i, dl))
        r = S.call(pi_.add_modal_delay, sig, delay) if via == "function" else S.call(pi_.simulate_transmission, sig, modal_delay=delay)
        w = S.call(ci.add_modal_delay, sig, delay)
    same(S, "the impairment at the sampling rate of the signal", r, w, (2, L))
    carries(S, r, sig, fs, fb)
    S.ensure_unchanged("signal unchanged", sig)


@contract("C12", kind="bounded", trials=20)
def simulated_transmission(S):
    """all impairments together are the single ones after each other"""
    L, nm = S.int('L', 30, cmax=60), 2
    rng = S.rng
    s = sg.SignalQAMGrayCoded(16, L, nmodes=nm, fb=10e9).resample(20e9, beta=.1)
    on = lambda: bool(rng.integers(0, 2))
    k = dict(snr=rng.uniform(5, 20) if on() else None, freq_off=rng.uniform(-1e8, 1e8) if on() else None, lwdth=rng.uniform(1e3, 1e6) if on() else None,
             dgd=rng.uniform(1e-12, 1e-10) if on() else None, modal_delay=rng.integers(-9, 9, 2) if on() else None, dispersion=rng.uniform(-1, 1) if on() else None)
    th = rng.uniform(-3, 3)
    keep = s.copy()
    np.random.seed(int(rng.integers(1, 1000)))
    st = np.random.get_state()
    r = pi_.simulate_transmission(s, theta=th, **k)
    np.random.set_state(st)
    x = s
    if k['lwdth'] is not None:
        x = pi_.apply_phase_noise(x, k['lwdth'])
    if k['freq_off'] is not None:
        x = pi_.add_carrier_offset(x, k['freq_off'])
    if k['snr'] is not None:
        x = pi_.change_snr(x, k['snr'])
    if k['modal_delay'] is not None:
        x = pi_.add_modal_delay(x, k['modal_delay'])
    if k['dispersion'] is not None:
        x = pi_.add_dispersion(x, k['dispersion'], 1)
    if k['dgd'] is not None:
        x = pi_.apply_PMD(x, th, k['dgd'])
    S.ensure("all impairments one after the other", np.allclose(np.asarray(x), np.asarray(r)))
    S.ensure("signal unchanged", np.array_equal(np.asarray(s), np.asarray(keep)))
    S.ensure("rates kept", r.fs == 20e9 and r.fb == 10e9 and type(r) is type(s))
    if k['snr'] is None:
        e = lambda z: (abs(np.asarray(z)) ** 2).sum()
        S.ensure("total energy", np.isclose(e(r), e(s)))


@contract("C12", kind="bounded", trials=10)
def linear(S):
    """sums and multiples of fields go through as sums and multiples"""
    L, nm, rng = S.int('L', 1, cmax=33), 2, S.rng
    E, F = (rng.standard_normal((2, 2, L)) + 1j * rng.standard_normal((2, 2, L)))
    a, b = rng.standard_normal(2) + 1j * rng.standard_normal(2)
    th, t, fs = rng.uniform(-7, 7), rng.uniform(-3, 3), rng.uniform(.3, 3)
    dl = rng.integers(-40, 40, 2)
    for label, f in (("PMD", lambda x: ci.apply_PMD_to_field(x, th, t, fs)), ("dispersion", lambda x: ci.add_dispersion(x, 1e10 * fs, 1e-5 * t, 1e5)),
                     ("rotation", lambda x: ci.rotate_field(x, th)), ("carrier offset", lambda x: ci.add_carrier_offset(x, t, fs)),
                     ("modal delay", lambda x: ci.add_modal_delay(x, dl))):
        S.ensure(label + " acts linearly", np.allclose(f(a * E + b * F), a * f(E) + b * f(F)))
        S.ensure(label + " keeps the energy", np.isclose((abs(f(E)) ** 2).sum(), (abs(E) ** 2).sum()))
