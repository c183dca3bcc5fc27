import numpy as np
from pyvc.spec import contract
import qampy.core.pythran_dsp as pd
import qampy.core.phaserecovery as pr
import qampy.phaserec as api
import qampy.signals as sg
from specs.common import *
from specs.c02 import gen_alpha, gen_sample

DT = [dict(dt=np.complex128, ft=np.float64), dict(dt=np.complex64, ft=np.float32)]


def gen_ph(rng, shape):
    """a few rad of slowly varying phase on lattice points"""
    n = shape[-1]
    q = (rng.integers(-2, 2, shape) * 2 + 1 + 1j * (rng.integers(-2, 2, shape) * 2 + 1))
    return q * np.exp(1j * rng.normal() * np.linspace(0, 3, n)) + .05 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))


@contract("C07", cases=[dict(ft=np.float64), dict(ft=np.float32)])
def select_angle_index(S, ft):
    L, A, N = S.int('L', 1, cmax=20), S.int('A', 1, cmax=6), S.int('N', 1, cmax=8)
    x = S.array('x', (L, A), ft, lo=0, hi=4)
    idx = S.call(pd.select_angle_index, x, N)
    win = lambda i, k: S.sum(i + 1, lambda q: x[q, k], lo=i - N + 1)

    def at(i):
        j = idx[i - N // 2]
        S.ensure("index in range", S.and_(j >= 0, j < A))
        S.forall((A,), lambda k: S.ensure("selected angle is minimal over the window", S.le(win(i, j), win(i, k))))
    S.range(N, L, at)
    S.ensure_array("one index per sample", idx, (L,), lambda q: idx[q])
    if S.symbolic:
        f = spec_select_angle_index(S, x, N)
        S.ensure_array("functional contract", idx, (L,), lambda q: f[q])
    S.ensure_unchanged("distances unchanged", x)


def window_minimal(S, idx, E, ang, symbs, L, A, N):
    d = dist_fn(S, E, ang, symbs)
    win = lambda n, k: S.sum(n + N + 1, lambda q: d(q, k), lo=n - N + 1)

    def at(n):
        j = idx[n]
        S.ensure("index in range", S.and_(j >= 0, j < A))
        S.forall((A,), lambda k: S.ensure("selected angle is minimal over the window", S.le(win(n, j), win(n, k))))
    S.range(N, L - N, at)
    S.ensure_array("one index per sample", idx, (L,), lambda q: idx[q])
    if S.symbolic:
        f = spec_bps(S, E, ang, symbs, N)
        S.ensure_array("functional contract", idx, (L,), lambda q: f[q])


@contract("C07", cases=[dict(d, rows=r) for d in DT for r in ("one", "each")])
def bps_kernel(S, dt, ft, rows):
    L, A, N, M = S.int('L', 1, cmax=20), S.int('A', 1, cmax=6), S.int('N', 1, cmax=4), S.int('M', 1, cmax=5)
    if rows == "each":
        S.require(L > 1)
    E = S.array('E', (L,), dt, gen=gen_sample)
    ang = S.array('ang', (1 if rows == "one" else L, A), ft)
    symbs = S.array('symbs', (M,), dt, gen=gen_alpha)
    S.by_contract(pd.det_symbol, spec_det_symbol, "C07/dsp_det_symbol")
    S.by_contract(pd.select_angle_index, spec_select_angle_index, "C07/select_angle_index")
    idx = S.call(pd.bps, E, ang, symbs, N)
    window_minimal(S, idx, E, ang, symbs, L, A, N)
    S.ensure_unchanged("samples unchanged", E)
    S.ensure_unchanged("angles unchanged", ang)
    S.ensure_unchanged("alphabet unchanged", symbs)


@contract("C07", cases=DT)
def bps_python(S, dt, ft):
    L, A, N, M = S.int('L', 1, cmax=20), S.int('A', 1, cmax=6), S.int('N', 1, cmax=4), S.int('M', 1, cmax=5)
    S.require(L > 2 * N)
    E = S.array('E', (L,), dt, gen=gen_sample)
    ang = S.array('ang', (1, A), ft)
    symbs = S.array('symbs', (M,), dt, gen=gen_alpha)
    idx = S.call(pr._bps_idx_py, E, ang, symbs, N)
    window_minimal(S, idx, E, ang, symbs, L, A, N)
    S.ensure_unchanged("samples unchanged", E)


@contract("C07", cases=[dict(ft=f, it=i) for f in (np.float64, np.float32) for i in (np.int32, np.int64)])
def select_angles(S, ft, it):
    L, A, p = S.int('L', 1, cmax=12), S.int('A', 1, cmax=6), S.int('p', 1, cmax=12)
    S.require(S.or_(S.eq(p, 1), S.eq(p, L)))
    ang = S.array('ang', (p, A), ft)
    idx = S.array('idx', (L,), it, lo=0, hi=A - 1)
    r = S.call(pd.select_angles, ang, idx)
    S.ensure_array("angles", r, (L,), lambda q: S.ite(p > 1, lambda: ang[q, idx[q]], lambda: ang[0, idx[q]]))
    S.ensure_unchanged("angles unchanged", ang)
    S.ensure_unchanged("index unchanged", idx)


def kernels_by_contract(S):
    S.by_contract(pd.bps, spec_bps, "C07/bps_kernel")
    S.by_contract(pr._bps_idx_py, spec_bps, "C07/bps_python")
    S.by_contract(pd.select_angles, spec_select_angles, "C07/select_angles")


def rotated(S, lab, E, Eo, ph, shape):
    S.ensure_array(lab + ": phase", ph, shape, lambda *q: ph[q])
    S.ensure_array(lab + ": output is the input rotated by the returned phase", Eo, shape,
                   lambda *q: S.elem(E, *q) * S.complex(S.cos(ph[q]), S.sin(ph[q])))
    S.forall(shape, lambda *q: S.ensure_eq(lab + ": magnitudes kept", S.abs2(S.elem(Eo, *q)), S.abs2(S.elem(E, *q))))


def minimal_angle(S, E, A, symbs, M, N, m, n, ph, ft):
    """concrete: the phase is a quarter turn multiple away from an angle that attains the windowed minimum"""
    angs = np.linspace(-np.pi / 4, np.pi / 4, A, endpoint=False)
    Ew = np.asarray(E)[m, n - N + 1:n + N + 1].astype(complex)
    d = (abs(Ew[:, None, None] * np.exp(1j * angs)[None, :, None] - np.asarray(symbs)[None, None, :]) ** 2).min(axis=2).sum(axis=0)
    x = (ph - angs) / (np.pi / 2)
    k = np.argmin(abs(x - np.round(x)))
    return abs(x[k] - np.round(x[k])) < 1e-3 and d[k] <= d.min() + (1e-3 if S.single else 1e-8) * (1 + d.min() + (abs(np.asarray(E)) ** 2).sum())


@contract("C07", cases=[dict(d, method=m, nd=nd) for d in DT for m in ("pyt", "py") for nd in (1, 2)], budget=250)
def bps(S, dt, ft, method, nd):
    L, A, N, M = S.int('L', 1, cmax=24), S.int('A', 1, cmax=8), S.int('N', 1, cmax=4), S.int('M', 1, cmax=5)
    S.require(L > 2 * N)
    nm = S.int('nm', 1, cmax=3)
    shape = (nm, L) if nd == 2 else (L,)
    E = S.array('E', shape, dt, gen=gen_ph)
    symbs = S.array('symbs', (M,), dt, gen=gen_alpha)
    kernels_by_contract(S)
    Eo, ph = S.call(pr.bps, E, A, symbs, N, method=method)
    rotated(S, "bps", E, Eo, ph, shape)
    S.ensure_unchanged("samples unchanged", E)
    S.ensure_unchanged("alphabet unchanged", symbs)
    if S.symbolic:
        angs = S.call(np.linspace, -np.pi / 4, np.pi / 4, A, endpoint=False, dtype=ft)
        kern = pd.bps if method == "pyt" else pr._bps_idx_py

        def at(m, n):
            idx = S.call(kern, S.row(E, m) if nd == 2 else E, S.call(np.reshape, angs, (1, A)), symbs, N)
            v = ph[m, n] if nd == 2 else ph[n]
            S.ensure("phase is the selected test angle up to quarter turns", S.is_integer((v - angs[idx[n]]) * 2 / S.pi()))
        for_window(S, nm if nd == 2 else 1, N, L, at)
    else:
        E2, p2 = np.atleast_2d(E), np.atleast_2d(ph)
        for_window(S, nm if nd == 2 else 1, N, L, lambda m, n: S.ensure("phase attains the windowed minimum up to quarter turns", minimal_angle(S, E2, A, symbs, M, N, m, n, p2[m, n], ft)))


def for_window(S, nm, N, L, at):
    S.range(0, nm, lambda m: S.range(N, L - N, lambda n: at(m, n)))


@contract("C07", cases=[dict(d, method=m, nd=nd) for d in DT for m in ("pyt",) for nd in (1, 2)], budget=250)
def bps_twostage(S, dt, ft, method, nd):
    L, A, N, M, B = S.int('L', 2, cmax=24), S.int('A', 1, cmax=8), S.int('N', 1, cmax=4), S.int('M', 1, cmax=5), S.int('B', 1, cmax=5)
    S.require(L > 2 * N)
    nm = S.int('nm', 1, cmax=3)
    shape = (nm, L) if nd == 2 else (L,)
    E = S.array('E', shape, dt, gen=gen_ph)
    symbs = S.array('symbs', (M,), dt, gen=gen_alpha)
    kernels_by_contract(S)
    Eo, ph = S.call(pr.bps_twostage, E, A, symbs, N, B=B, method=method)
    rotated(S, "bps_twostage", E, Eo, ph, shape)
    S.ensure_unchanged("samples unchanged", E)
    S.ensure_unchanged("alphabet unchanged", symbs)
    if S.symbolic:
        angs = S.call(np.reshape, S.call(np.linspace, -np.pi / 4, np.pi / 4, A, endpoint=False, dtype=ft), (1, A))
        b = S.call(np.linspace, -B / 2, B / 2, B)

        def at(m, n):
            row = S.row(E, m) if nd == 2 else E
            idx = spec_bps(S, row, angs, symbs, N)
            fine = S.array_of((L, B), ft, lambda q, k: angs[0, idx[q]] + b[k] / (B * A) * S.pi() / 2)
            idx2 = spec_bps(S, row, fine, symbs, N)
            v = ph[m, n] if nd == 2 else ph[n]
            S.ensure("phase is the selected second stage angle up to quarter turns", S.is_integer((v - fine[n, idx2[n]]) * 2 / S.pi()))
        for_window(S, nm if nd == 2 else 1, N, L, at)
    else:
        E2, p2 = np.atleast_2d(E), np.atleast_2d(ph)
        for_window(S, nm if nd == 2 else 1, N, L, lambda m, n: S.ensure("phase is minimal among the second stage angles", twostage_ok(S, E2, A, B, symbs, N, m, n, p2[m, n], ft)))


def twostage_ok(S, E, A, B, symbs, N, m, n, v, ft):
    tol = (2e-3 if S.single else 1e-8) * (1 + (abs(E) ** 2).sum())
    L = E.shape[1]
    angs = np.linspace(-np.pi / 4, np.pi / 4, A, endpoint=False, dtype=ft)
    idx = pd.bps(np.copy(E[m]), angs.reshape(1, -1), symbs, N)
    b = np.linspace(-B / 2, B / 2, B) / (B * A) * np.pi / 2
    fine = angs[idx][:, None] + b[None, :]
    q = np.arange(n - N + 1, n + N + 1)
    d = (abs(E[m, q][:, None, None] * np.exp(1j * fine[q])[:, :, None] - np.asarray(symbs)[None, None, :]) ** 2).min(axis=2).sum(axis=0)
    x = (v - fine[n]) / (np.pi / 2)
    ok = abs(x - np.round(x)) < 1e-3
    return bool(ok.any()) and d[ok].min() <= d.min() + tol


@contract("C07", cases=[dict(d, two=t) for d in DT for t in (False, True)], kind="bounded", trials=8)
def signal_bps(S, dt, ft, two):
    """the signal level search uses the signal's own alphabet"""
    M = [4, 16, 32, 64][S.int('mi', 0, 3)]
    L, A, N, nm = S.int('L', 20, cmax=40), S.int('A', 4, cmax=24), S.int('N', 2, cmax=6), S.int('nm', 1, cmax=2)
    sig = sg.SignalQAMGrayCoded(M, L, nmodes=nm, dtype=dt)
    sig[:] = sig * np.exp(1j * S.real('phi', -.6, .6))
    fn = api.bps_twostage if two else api.bps
    before = np.array(sig)
    S.single = dt is np.complex64
    Eo, ph = S.call(fn, sig, A, N)
    rotated(S, "bps", before, np.asarray(Eo), ph, (nm, L))
    for_window(S, nm, N, L, lambda m, n: S.ensure("phase attains the windowed minimum",
               twostage_ok(S, before, A, 4, sig.coded_symbols, N, m, n, ph[m, n], ft) if two else minimal_angle(S, before, A, sig.coded_symbols, M, N, m, n, ph[m, n], ft)))
    S.ensure("signal unchanged", np.array_equal(before, np.asarray(sig)))
