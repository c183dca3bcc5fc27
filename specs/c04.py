import numpy as np
from pyvc.spec import contract
import qampy.core.equalisation.pythran_equalisation as pe
import qampy.core.equalisation.equalisation as eq
import qampy.equalisation as api
import qampy.signals as sg

C = [dict(dt=np.complex128), dict(dt=np.complex64), dict(dt=np.float64)]


def filt(S, E, w, os_, m, k, ni, nt):
    return S.sum(ni, lambda j: S.sum(nt, lambda i: E[j, k * os_ + i] * w[m, j, i]))


def dims(S):
    nm, ni = S.int('nm', 1, cmax=3), S.int('ni', 1, cmax=3)
    nt, os_ = S.int('Ntaps', 1, cmax=7), S.int('os', 1, cmax=3)
    L = S.int('L', 1, cmax=30)
    S.require(L >= nt)
    return nm, ni, nt, os_, L


@contract("C04", cases=C)
def apply_filter_to_signal(S, dt):
    nm, ni, nt, os_, L = dims(S)
    E = S.array('E', (ni, L), dt)
    w = S.array('w', (nm, ni, nt), dt)
    r = S.call(pe.apply_filter_to_signal, E, os_, w)
    K = (L - nt + 1) // os_
    S.ensure_array("output", r, (nm, K), lambda m, k: filt(S, E, w, os_, m, k, ni, nt), dtype=dt)
    S.ensure_unchanged("E unchanged", E)
    S.ensure_unchanged("w unchanged", w)


@contract("C04", cases=C)
def apply_filter_to_signal_modes(S, dt):
    nm, ni, nt, os_, L = dims(S)
    E = S.array('E', (ni, L), dt)
    w = S.array('w', (nm, ni, nt), dt)
    nsel = S.int('nsel', 1, cmax=4)
    modes = S.array('modes', (nsel,), np.int64, lo=0, hi=nm - 1)
    r = S.call(pe.apply_filter_to_signal, E, os_, w, modes)
    K = (L - nt + 1) // os_
    S.ensure_array("output", r, (nsel, K), lambda m, k: filt(S, E, w, os_, modes[m], k, ni, nt), dtype=dt)


@contract("C04", cases=[dict(dt=np.complex128), dict(dt=np.complex64)])
def apply_filter_complex(S, dt):
    nm, ni, nt, os_, L = dims(S)
    E = S.array('E', (ni, L), dt)
    w = S.array('w', (nm, ni, nt), dt)
    r = S.call(eq.apply_filter, E, os_, w)
    K = (L - nt + 1) // os_
    S.ensure_array("output", r, (nm, K), lambda m, k: filt(S, E, w, os_, m, k, ni, nt), dtype=dt)
    S.ensure_unchanged("E unchanged", E)
    S.ensure_unchanged("w unchanged", w)


@contract("C04", cases=[dict(dt=np.complex128), dict(dt=np.complex64)])
def apply_filter_modes(S, dt):
    nm, ni, nt, os_, L = dims(S)
    E = S.array('E', (ni, L), dt)
    w = S.array('w', (nm, ni, nt), dt)
    nsel = S.int('nsel', 1, cmax=4)
    modes = S.array('modes', (nsel,), np.int64, lo=0, hi=nm - 1)
    r = S.call(eq.apply_filter, E, os_, w, modes=modes)
    K = (L - nt + 1) // os_
    S.ensure_array("output", r, (nsel, K), lambda m, k: filt(S, E, w, os_, modes[m], k, ni, nt), dtype=dt)


def realsplit(S, E, n, j, q):
    """row j of the real-valued form of E: real parts first, then imaginary parts"""
    return S.ite(j < n, lambda: S.re(E[j, q]), lambda: S.im(E[j - n, q]))


def rrow(S, E, w, os_, m, k, n, nt):
    return S.sum(2 * n, lambda j: S.sum(nt, lambda i: realsplit(S, E, n, j, k * os_ + i) * w[m, j, i]))


@contract("C04", cases=[dict(dt=np.complex128, wt=np.float64), dict(dt=np.complex64, wt=np.float32)])
def apply_filter_realvalued(S, dt, wt):
    ni, nt, os_, L = S.int('ni', 1, cmax=3), S.int('Ntaps', 1, cmax=7), S.int('os', 1, cmax=3), S.int('L', 1, cmax=30)
    S.require(L >= nt)
    E = S.array('E', (ni, L), dt)
    w = S.array('w', (2 * ni, 2 * ni, nt), wt)
    r = S.call(eq.apply_filter, E, os_, w)
    K = (L - nt + 1) // os_
    S.ensure_array("output", r, (ni, K), lambda m, k: S.complex(rrow(S, E, w, os_, m, k, ni, nt), rrow(S, E, w, os_, m + ni, k, ni, nt)), dtype=dt)
    S.ensure_unchanged("E unchanged", E)


@contract("C04", cases=[dict(dt=np.complex128), dict(dt=np.complex64)])
def real_complex_split(S, dt):
    n, L = S.int('n', 1, cmax=4), S.int('L', 0, cmax=9)
    E = S.array('E', (n, L), dt)
    r = S.call(eq._convert_sig_to_real, E)
    S.ensure_array("real rows", r, (2 * n, L), lambda j, q: realsplit(S, E, n, j, q))
    z = S.call(eq._convert_sig_to_cmplx, r, 2 * n, dt(1j))
    S.ensure_array("round trip", z, (n, L), lambda j, q: E[j, q])
