import os, tempfile
import numpy as np
from pyvc.spec import contract
import qampy.io as qio
import qampy.signals as sg
from specs.common import *

Q = sg.SignalQAMGrayCoded


def same(S, label, a, b, seen=()):
    """the loaded value is the saved one, signals inside included"""
    if id(a) in seen:          # a signal which is its own reference
        return
    seen = seen + (id(a),)
    if isinstance(a, (str, bytes, type(None), bool)):
        return S.ensure(label, type(a) is type(b) and a == b)
    if isinstance(a, (tuple, list)):
        S.ensure(label + ": length", type(a) is type(b) and len(a) == len(b))
        for k, (x, y) in enumerate(zip(a, b)):
            same(S, "%s[%d]" % (label, k), x, y, seen)
        return
    try:
        sh = S.shape(a)
    except Exception:
        sh = None
    if sh is None or len(sh) == 0:
        return S.ensure_eq(label, b, a)
    S.ensure(label + ": class", S.cls(b) is S.cls(a))
    if S.cls(a) is np.ndarray and S.dtype(a) == object:
        return
    S.ensure_array(label, b, sh, lambda *k: S.elem(a, *k), dtype=S.dtype(a), tol=0)
    for n in attributes(S.cls(a)):
        same(S, label + "." + n, S.attr(a, n), S.attr(b, n), seen)


def attributes(cls):
    """what a signal of the class carries: the properties that the documentation of the class lists"""
    if not issubclass(cls, sg.SignalBase):
        return []
    own = {sg.TDHQAMSymbols: ["_symbols_M1", "_symbols_M2", "_fr", "_powratio"],
           sg.SymbolOnlySignal: ["_symbols", "_coded_symbols"],
           sg.SignalWithPilots: ["_pilots", "_symbols", "_frame_len", "_pilot_seq_len", "_pilot_ins_rat", "_pilot_scale", "_idx_dat", "_idx_pil", "_nframes", "_shiftfctrs", "_synctaps", "_foe"]}
    return ["_fs", "_fb", "_M"] + own.get(cls, ["_symbols", "_bits", "_coded_symbols", "_encoding", "_bitmap_mtx", "_code"])


def values(S, nm, L, cls):
    r = lambda n: S.real(n, .1, crange=(.5, 4))
    c = lambda n, *sh: S.array(n, sh, np.complex128)
    n, M = S.int('n', 1, cmax=6), 16
    at = dict(_fs=r('fs'), _fb=r('fb'), _M=M)
    if cls is sg.TDHQAMSymbols:
        at.update(_symbols_M1=signal(S, 's1', nm, n, Q), _symbols_M2=signal(S, 's2', nm, n, Q), _fr=r('fr'), _powratio=r('ratio'), _M=(16, 4))
    elif cls is sg.SignalWithPilots:
        at.update(_pilots=signal(S, 'pil', nm, n, Q), _symbols=signal(S, 'sym', nm, L, Q), _frame_len=S.int('F', 1, cmax=9), _pilot_seq_len=S.int('seq', 0, cmax=9), _pilot_ins_rat=S.int('rat', 1, cmax=9),
                  _pilot_scale=r('scale'), _idx_dat=S.array('idat', (L,), bool), _idx_pil=S.array('ipil', (L,), bool), _nframes=None, _shiftfctrs=S.array('shift', (nm,), int), _synctaps=S.int('taps', 1, cmax=9), _foe=S.array('foe', (nm, 1), float))
    elif cls is sg.SymbolOnlySignal:
        at.update(_symbols=c('sym', nm, n), _coded_symbols=c('alph', 4))
    else:
        at.update(plain(S, '', nm, n, M))
    return at


def plain(S, name, nm, n, M):
    c = lambda q, *sh: S.array(name + q, sh, np.complex128)
    return dict(_symbols=c('sym', nm, n), _coded_symbols=c('alph', M), _bits=S.array(name + 'bits', (nm, 4 * n), bool), _encoding=S.array(name + 'enc', (M, 4), bool), _bitmap_mtx=c('bm', 4, M // 2, 2), _code=S.array(name + 'code', (M,), int))


def signal(S, name, nm, n, cls):
    return S.array(name, (nm, n), np.complex128, cls=cls, attrs=dict(_fs=1., _fb=1., _M=16, **plain(S, name, nm, n, 16)))


@contract("C20", cases=[dict(cls=k, dt=d) for k in ("SignalQAMGrayCoded", "SignalPSKGrayCoded", "ResampledQAM", "SymbolOnlySignal", "TDHQAMSymbols", "SignalWithPilots") for d in (np.complex128, np.complex64)])
def saved_signal(S, cls, dt):
    """samples, class, sample type and everything the signal carries come back, at every compression level; the signal is not altered"""
    cls = getattr(sg, cls)
    nm, L, lvl = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=8), S.int('level', -1, 9)
    at = values(S, nm, L, cls)
    x = S.array('x', (nm, L), dt, cls=cls, attrs=at)
    d = tempfile.mkdtemp() if not S.symbolic else ""
    fn = os.path.join(d, "signal.sig")
    try:
        S.call(qio.save_signal, fn, x, lvl)
        y = S.call(qio.load_signal, fn)
        z = S.call(qio.load_signal, fn)
        S.ensure("class", S.cls(y) is cls)
        for o in (y, z):
            S.ensure_array("samples", o, (nm, L), lambda m, k: S.initial(x)[m, k], dtype=dt)
            for n in attributes(cls):
                same(S, n, at[n], S.attr(o, n))
        S.ensure_fresh("own storage", y, x)
        S.ensure_unchanged("signal", x)
    finally:
        if d:
            for f in os.listdir(d):
                os.remove(os.path.join(d, f))
            os.rmdir(d)


@contract("C20", kind="bounded", trials=40, thorough=300)
def generated_signals(S):
    """signals of every class as generated, resampled, sliced, scaled or in Fortran order; at every level; repeatedly; over an older file"""
    r = S.rng
    nm, N = int(r.integers(1, 4)), int(r.choice([1, 5, 64, 1000]))
    pick = int(r.integers(0, 7))
    dt = [np.complex128, np.complex64][int(r.integers(2))]
    M = int(r.choice([4, 16, 32, 64]))
    if pick == 0:
        s = Q(M, N, nmodes=nm, fb=25e9, dtype=dt)
    elif pick == 1:
        s = sg.SignalPSKGrayCoded(8, N, nmodes=nm, fb=3., dtype=dt)
    elif pick == 2:
        s = sg.SymbolOnlySignal(4, N, np.array([1, 1j, -1, -1j]), nmodes=nm, fb=2.)
    elif pick == 3:
        s = sg.TDHQAMSymbols((16, 4), 100, nmodes=nm, fr=.5)
    elif pick == 4:
        s = sg.SignalWithPilots(M, 512, 64, 16, nframes=2, nmodes=nm, dtype=dt)
    elif pick == 5:
        s = sg.ResampledQAM(M, 500, nmodes=nm, fs=2., fb=1., dtype=dt)
    else:
        s = Q(M, N, nmodes=nm, bitclass=sg.PRBSBits, fb=1.)
    if pick in (0, 6) and N > 100 and r.random() < .4:
        s = s.resample(2 * s.fb, beta=.2)
    how = int(r.integers(4))
    if how == 1:
        s = s * 1.5 + .25j
    elif how == 2 and s.shape[1] > 4:
        s = s[:, 1:-2:2] if pick != 4 else s
    elif how == 3:
        s = s.recreate_from_np_array(np.asfortranarray(s)) if pick != 4 else s
    d = tempfile.mkdtemp()
    fn = os.path.join(d, "signal.sig")
    try:
        before = np.array(s)
        for k in range(2):
            lvl = int(r.integers(-1, 10))
            other = Q(4, 3000, nmodes=1)
            qio.save_signal(fn, other, 0)
            qio.save_signal(fn, s, lvl)
            y = qio.load_signal(fn)
            S.ensure("class and samples", type(y) is type(s) and y.dtype == s.dtype and y.shape == s.shape and np.array_equal(y, s))
            for n in attributes(type(s)):
                same(S, n, getattr(s, n), getattr(y, n))
            S.ensure("rates", y.fs == s.fs and y.fb == s.fb and y.M == s.M)
            S.ensure("not altered", np.array_equal(before, s))
            s = y
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)
