import numpy as np
from scipy.special import erfc
from pyvc.spec import contract
import qampy.theory as th
import qampy.helpers as he
import qampy.core.special_fcts as sf
from specs.common import *

def curve(S, name, dt=float):
    n = S.int('n', 1, cmax=12)
    x = S.array(name, (n,), dt, gen=lambda r, sh: r.uniform(.01, 30, sh).astype(dt))
    if S.symbolic:
        S.assume_forall((n,), lambda k: x[k] > 0)
    return n, x


def q(S, x):
    return S.fn(erfc, x / S.sqrt(2.)) / 2


def ber_qam(S, snr, M):
    """Shafik 2006: gray-coded M-QAM"""
    L = S.sqrt(M)
    return 2 * (1 - 1 / L) / S.log2(L) * q(S, S.sqrt(3 * S.log2(L) / (L * L - 1) * (2 * snr / S.log2(M))))


# ------------------------------------------------------------------------------------------- units and curves
@contract("C18")
def decibels(S):
    n, x = curve(S, 'x')
    lin = S.call(he.dB2lin, x)
    S.ensure_array("ten to the tenth of it", lin, (n,), lambda k: S.fn(np.power, 10., x[k] / 10))
    S.ensure_array("decibels of the linear value", S.call(he.lin2dB, lin), (n,), lambda k: x[k])
    dB = S.call(he.lin2dB, x)
    S.ensure_array("ten times its decimal logarithm", dB, (n,), lambda k: 10 * S.log10(x[k]))
    S.ensure_array("linear value of the decibels", S.call(he.dB2lin, dB), (n,), lambda k: x[k])
    S.ensure_unchanged("input", x)


@contract("C18")
def bit_error_curves(S):
    """the BER over SNR is the stated formula, the BER over EVM the same at the SNR which is one over the EVM"""
    M = S.int('M', 2, cmax=1024)
    n, snr = curve(S, 'snr')
    b = S.call(th.ber_vs_es_over_n0_qam, snr, M)
    S.ensure_array("formula", b, (n,), lambda k: ber_qam(S, snr[k], M))
    evm = S.array('evm', (n,), float, gen=lambda r, sh: r.uniform(-30, 5, sh))
    e = S.call(th.ber_vs_evm_qam, evm, M)
    lin = lambda k: S.fn(np.power, 10., evm[k] / 10)
    S.ensure_array("the same curve at the SNR the EVM implies", e, (n,), lambda k: ber_qam(S, 1 / lin(k), M))
    f = S.call(th.ber_vs_es_over_n0_qam, S.array_of((n,), float, lambda k: 1 / lin(k)), M)
    S.forall((n,), lambda k: S.ensure_eq("both functions agree", S.elem(e, k), S.elem(f, k)))
    for a in (snr, evm):
        S.ensure_unchanged("input", a)


@contract("C18")
def symbol_error_curves(S):
    M = S.int('M', 2, cmax=1024)
    n, snr = curve(S, 'snr')
    p = lambda k: 2 * (1 - 1 / S.sqrt(M)) * S.fn(erfc, S.sqrt(3 * snr[k] / (2 * (M - 1)))) - (1 - 2 / S.sqrt(M) + 1 / (M + 0.)) * S.fn(erfc, S.sqrt(3 * snr[k] / (2 * (M - 1)))) ** 2
    S.ensure_array("QAM", S.call(th.ser_vs_es_over_n0_qam, snr, M), (n,), p)
    S.ensure_array("PSK", S.call(th.ser_vs_es_over_n0_psk, snr, M), (n,), lambda k: S.fn(erfc, S.sqrt(snr[k]) * S.sin(S.pi() / M)))
    S.ensure_array("4-PAM", S.call(th.ser_vs_es_over_n0_4pam, snr), (n,), lambda k: 0.75 * S.fn(erfc, S.sqrt(snr[k] / 5)))
    S.ensure_array("Q function", S.call(sf.q_function, snr), (n,), lambda k: q(S, snr[k]))
    S.ensure_unchanged("snr", snr)


@contract("C18")
def hybrid_curve(S):
    n, dB = curve(S, 'snr')
    M1, M2 = S.int('M1', 2, cmax=256), S.int('M2', 2, cmax=256)
    pr_, fr = S.real('pr', .1, crange=(.2, 4)), S.real('fr', 0, 1, crange=(.1, .9))
    r = S.call(th.hybrid_qam_ber_vs_esn0, dB, pr_, fr, M1, M2)
    snr = lambda k: S.fn(np.power, 10., dB[k] / 10)
    b1, b2 = S.log2(M1), S.log2(M2)
    D = (1 - fr) + fr * pr_
    S.ensure_array("average over the bits of both formats, each at its own SNR", r, (n,),
                   lambda k: ((1 - fr) * b1 * ber_qam(S, snr(k) / D, M1) + fr * b2 * ber_qam(S, pr_ * snr(k) / D, M2)) / ((1 - fr) * b1 + fr * b2))


# ------------------------------------------------------------------------------------------- pulses
@contract("C18")
def bell_shapes(S):
    n = S.int('n', 1, cmax=12)
    x = S.array('x', (n,), float)
    A, x0, w = S.real('A', crange=(-3, 3)), S.real('x0', crange=(-3, 3)), S.real('w', .01, crange=(.1, 3))
    u = lambda k: (x[k] - x0) / w
    S.ensure_array("Gaussian", S.call(sf.gauss, x, A, x0, w), (n,), lambda k: A * S.exp(-u(k) * u(k) / 2))
    S.ensure_array("hyperbolic secant", S.call(sf.sech, x, A, x0, w), (n,), lambda k: A / S.fn(np.cosh, u(k)))
    S.ensure_array("hyperbolic tangent", S.call(sf.ttanh, x, A, x0, w), (n,), lambda k: A * S.fn(np.tanh, u(k)))
    S.ensure_array("super Gaussian", S.call(sf.supergauss, x, A, x0, w, 3), (n,), lambda k: A * S.exp(-u(k) ** 6 / 2))
    S.ensure_unchanged("input", x)


def rolloff(S, beta):
    return {"some": lambda: S.real('beta', 0.001, 1, crange=(.05, 1)), "zero": lambda: 0, "one": lambda: 1}[beta]()


def grid(S, beta, T, what):
    """times: any; in concrete runs on a grid that hits the special points"""
    n = S.int('n', 2, cmax=20)
    b = float(beta) if not S.symbolic else 0

    def gen(r, sh):
        k = np.arange(sh[0]) - sh[0] // 2
        step = float(T) / (what * b) / int(r.integers(1, 4)) if b and r.random() < .6 else float(T) / int(r.integers(1, 5))
        return (k * step + (0 if r.random() < .6 else r.uniform(-.5, .5) * step)).astype(float)
    return n, S.array('t', (n,), float, gen=gen)


NEAR = 1e-7


def pulse(S, label, r, n, t, T, beta, general, peak, special, what):
    """the closed form away from its undefined points, its limits at them"""
    d0 = lambda k: S.abs(t[k] / T)
    d1 = lambda k: S.abs(S.abs(what * beta * t[k] / T if what == 4 else what * beta * (t[k] / T)) - 1)
    far = lambda k: S.and_(d0(k) > NEAR, d1(k) > NEAR)
    S.ensure_eq(label + ": length", S.shape(r)[0], n)
    S.forall((n,), lambda k: S.ensure(label, S.implies(far(k), lambda: S.eq(S.elem(r, k), general(t[k] / T), 1e-6))))
    S.forall((n,), lambda k: S.ensure(label + " at zero", S.implies(S.eq(t[k], 0, 1e-30) if not S.symbolic else S.eq(t[k], 0), lambda: S.eq(S.elem(r, k), peak, 1e-6))))
    if special is not None:
        at = (lambda k: d1(k) <= 1e-12) if not S.symbolic else (lambda k: S.eq(d1(k), 0))
        S.forall((n,), lambda k: S.ensure(label + " at its second undefined point", S.implies(at(k), lambda: S.eq(S.elem(r, k), special(t[k] / T), 1e-6))))
    S.ensure_unchanged("times", t)


@contract("C18", cases=[dict(beta=b) for b in ("some", "zero")])
def raised_cosine_pulse(S, beta):
    beta, T = rolloff(S, beta), S.real('T', .01, crange=(.3, 3))
    n, t = grid(S, beta, T, 2)
    r = S.call(sf.rcos_time, t, beta, T)
    g = lambda x: S.sin(S.pi() * x) / (S.pi() * x) * S.cos(x * S.pi() * beta) / (1 - 4 * (beta * x) * (beta * x))
    pulse(S, "raised cosine", r, n, t, T, beta, g, 1., (lambda x: S.pi() / 4 * S.fn(np.sinc, x)) if not (isinstance(beta, int) and beta == 0) else None, 2)


@contract("C18", cases=[dict(beta=b) for b in ("some", "zero")])
def root_raised_cosine_pulse(S, beta):
    beta, T = rolloff(S, beta), S.real('T', .01, crange=(.3, 3))
    n, t = grid(S, beta, T, 4)
    r = S.call(sf.rrcos_time, t, beta, T)
    pi = S.pi()
    g = lambda x: (S.sin(pi * x * (1 - beta)) + 4 * beta * x * S.cos(pi * x * (1 + beta))) / (pi * x * (1 - 16 * beta * beta * x * x)) / T
    sp = lambda x: beta / (T * S.sqrt(2.)) * ((1 + 2 / np.pi) * S.sin(pi / (4 * beta)) + (1 - 2 / np.pi) * S.cos(pi / (4 * beta)))
    pulse(S, "root-raised cosine", r, n, t, T, beta, g, (1 + beta * (4 / np.pi - 1)) / T, sp if not (isinstance(beta, int) and beta == 0) else None, 4)


@contract("C18", cases=[dict(beta=b, dt=d) for b in ("some", "zero", "one") for d in (float, int)])
def raised_cosine_spectra(S, beta, dt):
    beta, T = rolloff(S, beta), S.real('T', .01, crange=(.1, 2))
    n = S.int('n', 1, cmax=20)
    f = S.array('f', (n,), dt, gen=(lambda r, sh: r.uniform(-1.2, 1.2, sh) / float(T)) if dt is float else None)
    r = S.call(sf.rcos_freq, f, beta, T)
    a = lambda k: S.abs(f[k])
    lo, hi = (1 - beta) / (2 * T), (1 + beta) / (2 * T)
    edge = lambda k: T / 2 * (1 + S.cos(S.pi() * T / beta * (a(k) - lo)))
    flat = isinstance(beta, int) and beta == 0
    H = lambda k: S.ite(a(k) <= lo, lambda: T, lambda: 0. if flat else S.ite(a(k) <= hi, lambda: edge(k), lambda: 0.))
    S.ensure_array("raised cosine", r, (n,), H)
    rr = S.call(sf.rrcos_freq, f, beta, T)
    S.ensure_array("root", rr, (n,), lambda k: S.sqrt(H(k)))
    S.forall((n,), lambda k: S.ensure_eq("square of the root", S.elem(rr, k) ** 2, S.elem(r, k), 1e-12))
    S.ensure_unchanged("frequencies", f)


# ------------------------------------------------------------------------------------------- shaping
@contract("C18")
def shaping_probabilities(S):
    """proportional to exp(-nu |a|^2) over the distinct real parts, positive, sum one, a larger symbol energy never more likely (nu >= 0)"""
    n = S.int('n', 1, cmax=40)
    nu = S.real('nu', 0, crange=(0, 2))
    y = S.array('y', (n,), np.complex128)
    a, p = S.call(th.cal_ps_probablts, y, nu)
    m = S.shape(a)[0]
    S.ensure_eq("one probability per amplitude", S.shape(p)[0], m)
    w = lambda k: S.exp(-nu * S.abs(S.elem(a, k)) ** 2)
    S.forall((m,), lambda k: S.ensure_eq("weight over the sum of the weights", S.elem(p, k), w(k) / S.sum(m, w)))
    S.forall((m,), lambda k: S.ensure("positive", S.elem(p, k) > 0))
    S.ensure_eq("sum", S.sum(m, lambda k: S.elem(p, k)), 1.)
    S.forall((m, m), lambda j, k: S.ensure("ordered", S.implies(S.abs(S.elem(a, j)) < S.abs(S.elem(a, k)), lambda: S.le(S.elem(p, k), S.elem(p, j)))))
    S.forall((m, m), lambda j, k: S.ensure("distinct amplitudes", S.implies(j < k, lambda: S.elem(a, j) < S.elem(a, k))))
    S.ensure_unchanged("symbols", y)
