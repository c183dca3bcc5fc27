import numpy as np
from pyvc.spec import contract
import qampy.core.equalisation.pythran_equalisation as pe
import qampy.core.pythran_dsp as pd
import qampy.core.signal_quality as sq
import qampy.signals as sg
from specs.common import *

DT = [dict(dt=np.complex128), dict(dt=np.complex64)]


def alphabet(S, dt):
    M = S.int('M', 1, cmax=9)
    scale = 1.0
    symbs = S.array('symbs', (M,), dt, gen=None if S.symbolic else gen_alpha)
    return M, symbs


def gen_alpha(rng, shape):
    """lattice points (exact ties), random points, far away points"""
    k = rng.integers(0, 4)
    if k == 0:
        return rng.integers(-2, 3, shape) * 2 + 1 + 1j * (rng.integers(-2, 3, shape) * 2 + 1)
    if k == 1:
        return 200 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def gen_sample(rng, shape):
    k = rng.integers(0, 4)
    if k == 0:
        return (rng.integers(-5, 6, shape) + 1j * rng.integers(-5, 6, shape)).astype(complex)
    if k == 1:
        return 300 * (rng.normal(size=shape) + 1j * rng.normal(size=shape))
    return 2 * rng.normal(size=shape) + 2j * rng.normal(size=shape)


def nearest(S, lab, X, symbs, M, s, d2=None, d=None, idx=None):
    """s is an element of the alphabet with the least distance"""
    best = S.min(M, lambda q: S.abs2(X - symbs[q]))
    S.ensure(lab + ": no alphabet point is closer", S.le(S.abs2(X - s), best))
    k = S.argmin(M, lambda q: S.abs2(X - symbs[q]))
    if S.symbolic:
        S.ensure(lab + ": member of the alphabet", S.eq(s, symbs[k]))
    else:
        S.ensure(lab + ": member of the alphabet", any(s == symbs[q] for q in range(M)))
    if d2 is not None:
        S.ensure_eq(lab + ": reported squared distance", d2, best)
    if d is not None:
        S.ensure_eq(lab + ": reported distance", d, S.sqrt(best))
    if idx is not None:
        S.ensure(lab + ": reported index in range", S.and_(idx >= 0, idx < M))
        S.ensure_eq(lab + ": reported index is that of the symbol", s, symbs[idx])


@contract("C02", cases=DT, also=("C05",))
def det_symbol(S, dt):
    M, symbs = alphabet(S, dt)
    X = S.elem(S.array('X', (1,), dt, gen=gen_sample), 0)
    s, d = S.call(pe.det_symbol, X, symbs)
    nearest(S, "det_symbol", X, symbs, M, s, d2=d)


@contract("C02", cases=DT)
def det_symbol_parallel(S, dt):
    M, symbs = alphabet(S, dt)
    X = S.elem(S.array('X', (1,), dt, gen=gen_sample), 0)
    s, d = S.call(pe.det_symbol_parallel, X, symbs)
    nearest(S, "det_symbol_parallel", X, symbs, M, s, d2=d)


@contract("C02", cases=DT)
def det_symbol_argmin(S, dt):
    M, symbs = alphabet(S, dt)
    X = S.elem(S.array('X', (1,), dt, gen=gen_sample), 0)
    s, d, i = S.call(pe.det_symbol_argmin, X, symbs)
    nearest(S, "det_symbol_argmin", X, symbs, M, s, d=d, idx=i)


@contract("C02", cases=DT, also=("C07", "C16"))
def dsp_det_symbol(S, dt):
    M, symbs = alphabet(S, dt)
    X = S.elem(S.array('X', (1,), dt, gen=gen_sample), 0)
    s, d = S.call(pd.det_symbol, X, symbs)
    nearest(S, "pythran_dsp.det_symbol", X, symbs, M, s, d2=d)
    if S.symbolic:
        S.ensure_eq("functional contract: first nearest symbol", s, spec_det_symbol(S, X, symbs)[0])


@contract("C02", cases=DT)
def make_decision_kernel(S, dt):
    M, symbs = alphabet(S, dt)
    L = S.int('L', 0, cmax=12)
    E = S.array('E', (L,), dt, gen=gen_sample)
    s, d, i = S.call(pe.make_decision, E, symbs)
    S.ensure_array("shape of the symbols", s, (L,), lambda q: s[q])
    S.ensure_array("shape of the distances", d, (L,), lambda q: d[q])
    S.ensure_array("shape of the indices", i, (L,), lambda q: i[q])
    S.forall((L,), lambda q: nearest(S, "make_decision", E[q], symbs, M, s[q], d=d[q], idx=i[q]))
    S.ensure_unchanged("samples unchanged", E)
    S.ensure_unchanged("alphabet unchanged", symbs)


@contract("C02", cases=[dict(dt=d, cls=c) for d in (np.complex128, np.complex64) for c in (sg.SignalQAMGrayCoded, sg.SymbolOnlySignal)])
def signal_make_decision(S, dt, cls):
    M, symbs = alphabet(S, dt)
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 0, cmax=8)
    sig = qam_signal(S, 'sig', (nm, L), dt, symbs, cls=cls, M=M, gen=gen_sample)
    if cls is sg.SymbolOnlySignal:
        o = S.method(sig, 'make_decision')
        S.ensure_array("shape", o, (nm, L), lambda m, q: S.elem(o, m, q))
        S.forall((nm, L), lambda m, q: nearest(S, "decision", S.elem(sig, m, q), symbs, M, S.elem(o, m, q)))
    else:
        o, d, i = S.method(sig, 'make_decision', verbose=True)
        S.ensure_array("shape", o, (nm, L), lambda m, q: S.elem(o, m, q))
        S.ensure_array("shape of distances", d, (nm, L), lambda m, q: S.elem(d, m, q))
        S.ensure_array("shape of indices", i, (nm, L), lambda m, q: S.elem(i, m, q))
        S.forall((nm, L), lambda m, q: nearest(S, "decision", S.elem(sig, m, q), symbs, M, S.elem(o, m, q), d=S.elem(d, m, q), idx=S.elem(i, m, q)))
    S.ensure_unchanged("samples unchanged", sig)


@contract("C02", cases=DT)
def signal_make_decision_of_other(S, dt):
    """decisions on a passed array use the object's alphabet and the array's samples and shape"""
    M, symbs = alphabet(S, dt)
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 0, cmax=8)
    n2, L2 = S.int('nm2', 1, cmax=3), S.int('L2', 0, cmax=8)
    sig = qam_signal(S, 'sig', (nm, L), dt, symbs, M=M, gen=gen_sample)
    x = S.array('x', (n2, L2), dt, gen=gen_sample)
    o = S.method(sig, 'make_decision', x)
    S.ensure_array("shape", o, (n2, L2), lambda m, q: S.elem(o, m, q))
    S.forall((n2, L2), lambda m, q: nearest(S, "decision", x[m, q], symbs, M, S.elem(o, m, q)))
    S.ensure_unchanged("samples unchanged", x)


@contract("C02", cases=DT)
def core_make_decision(S, dt):
    M, symbs = alphabet(S, dt)
    L = S.int('L', 0, cmax=12)
    E = S.array('E', (L,), dt, gen=gen_sample)
    s, d, i = S.call(sq.make_decision, E, symbs)
    S.ensure_array("shape of the symbols", s, (L,), lambda q: s[q])
    S.forall((L,), lambda q: nearest(S, "make_decision", E[q], symbs, M, s[q], d=d[q], idx=i[q]))
