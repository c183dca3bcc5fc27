import numpy as np
import warnings
from pyvc.spec import contract
import qampy.core.utils as ut
import qampy.core.signal_quality as sq
import qampy.theory as th
import qampy.signals as sg
from specs.common import *

DT = [np.complex128, np.complex64]
CLS = [sg.SignalQAMGrayCoded, sg.SignalPSKGrayCoded]


@contract("C01")
def gray_number(S):
    """neighbouring numbers differ in one bit, distinct numbers have distinct codes (all 62 bit numbers)"""
    v, w = S.word('v'), S.word('w')
    a, b, c = S.call(ut.bin2gray, v), S.call(ut.bin2gray, v + 1), S.call(ut.bin2gray, w)
    d = a ^ b
    S.ensure("neighbours differ", S.not_(S.eq(d, 0)))
    S.ensure("neighbours differ in one bit", S.eq(d & (d - 1), 0))
    S.ensure("one to one", S.implies(S.eq(a, c), S.eq(v, w)))
    n = int(S.rng.integers(1, 60)) if not S.symbolic else None
    for k in range(1, 20):
        S.ensure("numbers of %d bits have codes of %d bits" % (k, k), S.implies(S.lt(v, 2 ** k), S.lt(a, 2 ** k)))


@contract("C01")
def square_alphabet(S):
    """the square grid with odd coordinates, for every side"""
    s = S.int('s', 2, cmax=40)
    M = S.int('M', 4, cmax=1600) if S.symbolic else s * s
    S.require(S.eq(M, s * s))
    S.lemma("side of the square", S.eq(S.sqrt(M), s))
    o = S.call(th.cal_symbols_square_qam, M)
    S.ensure_array("grid points", o, (s * s,), lambda k: S.complex(2. * (k // s) - (s - 1), 2. * (k % s) - (s - 1)))


@contract("C01", cases=[dict(four=True), dict(four=False)])
def psk_alphabet(S, four):
    """equally spaced points of the unit circle"""
    M = S.int('M', 1, cmax=4 if four else 70, cmin=4 if four else 1)
    S.require(S.eq(M, 4) if four else S.not_(S.eq(M, 4)))
    o = S.call(th.cal_symbols_psk, M)
    off = S.pi() / 4 if four else 0.
    S.ensure_array("points of the circle", o, (M,), lambda k: S.complex(S.cos(2 * S.pi() * k / M + off), S.sin(2 * S.pi() * k / M + off)))


def table(S, nb, coded=None, dt=np.complex128):
    """the binary expansion of every number below 2**nb, most significant digit first"""
    digit = lambda k, c: S.eq((k // 2 ** (nb - 1 - c)) % 2, 1)

    def entry(k, b):
        r = digit(k, nb - 1)
        for c in range(nb - 2, -1, -1):
            r = S.or_(S.and_(S.eq(b, c), digit(k, c)), S.and_(S.not_(S.eq(b, c)), r))
        return r
    return S.array_of((2 ** nb, nb), bool, entry)


def number(S, bits, nb, n, m):
    t = 0
    for b in range(nb):
        t = t + S.ite(S.elem(bits, m, n * nb + b), lambda: 1, lambda: 0) * 2 ** (nb - 1 - b)
    return t


@contract("C01", cases=[dict(nb=n, dt=d, extra=e) for n in range(1, 11) for d in DT for e in (0, 1) if e < n])
def modulate(S, nb, dt, extra):
    """every group of bits, most significant first, selects the alphabet point it numbers; an incomplete last group is dropped"""
    nm, N = S.int('nm', 1, cmax=3), S.int('N', 0, cmax=8)
    bits = S.array('bits', (nm, N * nb + extra), bool)
    coded = S.array('coded', (2 ** nb,), dt)
    enc = table(S, nb)
    for via in (0, 1):
        if via:
            sig = qam_signal(S, 'sig', (nm, N), dt, coded, encoding=enc, M=2 ** nb)
            o = S.method(sig, 'modulate', bits)
        else:
            o = S.call(sg.SignalQAMGrayCoded._modulate, bits, enc, coded, dtype=dt)
        S.ensure_array("symbols numbered by the bits", o, (nm, N), lambda m, n: coded[number(S, bits, nb, n, m)], dtype=dt)
    S.ensure_unchanged("bits unchanged", bits)


@contract("C01", cases=[dict(nb=n) for n in range(1, 11)])
def demodulate_index(S, nb):
    """the bits of every index in order; one row per mode"""
    nm, N = S.int('nm', 1, cmax=3), S.int('N', 1, cmax=8)
    enc = S.array('enc', (2 ** nb, nb), bool)
    ix = S.array('ix', (nm, N), np.int64, gen=lambda rng, s: rng.integers(0, 2 ** nb, s))
    S.assume_forall((nm, N), lambda m, q: S.and_(ix[m, q] >= 0, ix[m, q] < 2 ** nb))
    o = S.call(sg.SignalQAMGrayCoded._demodulate, ix, enc)
    S.ensure_array("label of every symbol", o, (nm, N * nb), lambda m, k: enc[ix[m, k // nb], k % nb])
    S.ensure_unchanged("indices unchanged", ix)
    i1 = S.array('i1', (N,), np.int64, gen=lambda rng, s: rng.integers(0, 2 ** nb, s))
    S.assume_forall((N,), lambda q: S.and_(i1[q] >= 0, i1[q] < 2 ** nb))
    o = S.call(sg.SignalQAMGrayCoded._demodulate, i1, enc)
    S.ensure_array("label of every symbol", o, (N * nb,), lambda k: enc[i1[k // nb], k % nb])


def generic_mapping(S, nb, dt):
    """what the mapping contract below guarantees: distinct points, labelled by the binary expansion of their index"""
    coded = S.array('coded', (2 ** nb,), dt, gen=None)
    S.assume_forall((2 ** nb, 2 ** nb), lambda i, j: S.or_(S.eq(i, j), S.not_(S.eq(coded[i], coded[j]))))
    code = S.array('code', (2 ** nb,), np.int64)
    return coded, code, table(S, nb), S.array('bm', (nb, 2 ** nb // 2, 2), dt)


@contract("C01", cases=[dict(nb=n, dt=d, cls=c) for n in (1, 2, 3, 4, 5, 6, 8) for d in DT for c in CLS if n < 5 or (d is DT[0]) == (c is CLS[0])])
def signal_from_bits(S, nb, dt, cls):
    """the signal built from a bit array keeps the bits and its symbols demodulate to them"""
    nm, N = S.int('nm', 1, cmax=3), S.int('N', 1, cmax=8)
    bits = S.array('bits', (nm, N * nb), bool)
    if S.symbolic:
        mp = generic_mapping(S, nb, dt)
        S.by_contract(cls.__dict__['_generate_mapping'].__func__, lambda S, *a, **k: mp, proved_by="C01 mapping")
        S.by_contract(th.cal_scaling_factor_qam, lambda S, M: S.real('scaling', 0.1), proved_by="C01 mapping")
        S.by_contract(sq.make_decision, spec_make_decision, proved_by="C02 core_make_decision")
    sig = S.call(cls.from_bit_array, bits, 2 ** nb, fb=2., dtype=dt)
    coded, enc = S.attr(sig, 'coded_symbols'), S.attr(sig, '_encoding')
    S.ensure("class", S.cls(sig) is cls)
    S.ensure_eq("order", S.attr(sig, 'M'), 2 ** nb)
    S.ensure_eq("symbol rate", S.attr(sig, 'fb'), 2.)
    S.ensure_array("symbols numbered by the bits", sig, (nm, N), lambda m, n: coded[number(S, bits, nb, n, m)], dtype=dt)
    S.ensure_array("stored symbols", S.attr(sig, 'symbols'), (nm, N), lambda m, n: coded[number(S, bits, nb, n, m)], dtype=dt)
    S.ensure_array("stored bits", S.attr(sig, 'bits'), (nm, N * nb), lambda m, k: S.elem(bits, m, k), dtype=bool)
    if S.symbolic:
        # the nearest point of a point of the alphabet is that point
        am = lambda k: S.argmin(2 ** nb, lambda i: S.abs(coded[k] - coded[i]))
        S.lemma_forall("a point is its own nearest point", (2 ** nb,), lambda k: S.eq(S.sqrt(S.abs2(coded[k] - coded[am(k)])), 0))
        S.lemma_forall("nearest point", (2 ** nb,), lambda k: S.eq(am(k), k))
    o = S.method(sig, 'demodulate', sig)
    S.ensure_array("demodulation returns the bits", o, (nm, N * nb), lambda m, k: S.elem(bits, m, k), dtype=bool)
    S.ensure_unchanged("bits unchanged", bits)


def check_mapping(S, cls, M, dt, coded, code, enc, bm):
    nb = int(np.log2(M))
    tol = 1e-5 if dt is np.complex64 else 1e-9
    S.ensure("one point per label", coded.shape == (M,) and coded.dtype == dt)
    S.ensure("distinct points", len(np.unique(np.round(np.asarray(coded, complex) / (2 / np.sqrt(M) / 50)).astype(complex))) == M)
    S.ensure_eq("unit mean power", (abs(np.asarray(coded, complex)) ** 2).mean(), 1, tol=tol)
    S.ensure("labels are the binary expansions", enc.shape == (M, nb) and enc.dtype == bool and np.array_equal(enc @ (2 ** np.arange(nb)[::-1]), np.arange(M)))
    d = abs(coded[:, None] - coded[None]).astype(float)
    np.fill_diagonal(d, np.inf)
    ham = (enc[:, None, :] != enc[None]).sum(-1)
    near = d < d.min() * (1 + (1e-3 if dt is np.complex64 else 1e-6))
    if cls is sg.SignalPSKGrayCoded or nb % 2 == 0 or nb in (1, 3):
        # nearest neighbours of the grid (of the circle): exactly one bit; every point has its full number of neighbours
        S.ensure("neighbours differ in one bit", (ham[near] == 1).all())
        n = 4 * M - 4 * np.sqrt(M) if cls is sg.SignalQAMGrayCoded and nb % 2 == 0 else 2 if M == 2 else None if cls is sg.SignalQAMGrayCoded else 2 * M
        S.ensure("number of neighbours", n is None or near.sum() == n)
    for b in range(nb):
        for v in (0, 1):
            w = coded[enc[:, b] == v]
            S.ensure("bit map lists the points of every bit value", np.array_equal(np.sort_complex(bm[b, :, v]), np.sort_complex(w)))


ORDERS = [2 ** k for k in range(1, 11)]


@contract("C01", kind="bounded", trials=1, cases=[dict(M=m, dt=d, cls=c) for m in ORDERS for d in DT for c in CLS], name="mapping")
def mapping(S, M, dt, cls):
    """exhaustive over the orders 2..1024: alphabet, labels and bit map"""
    scale = np.sqrt(th.cal_scaling_factor_qam(M))
    coded, code, enc, bm = cls._generate_mapping(M, scale, dtype=dt)
    check_mapping(S, cls, M, dt, coded, code, enc, bm)


@contract("C01", kind="bounded", trials=2, cases=[dict(M=m, cls=c) for m in ORDERS for c in CLS])
def objects(S, M, cls):
    """signal objects of every kind and order"""
    rng = S.rng
    nb = int(np.log2(M))
    dt = DT[int(rng.integers(0, 2))]
    nm, N = int(rng.integers(1, 4)), int(rng.integers(1, 60))
    kw = dict(bitclass=sg.PRBSBits) if rng.integers(0, 3) == 0 and nm <= 2 else {}
    if kw and nm == 1:
        kw.update(seed=[None], order=[15])
    s = cls(M, N, nmodes=nm, dtype=dt, **kw)
    S.ensure("shape and type", s.shape == (nm, N) and s.dtype == dt)
    check_mapping(S, cls, M, dt, s.coded_symbols, s._code, s._encoding, s._bitmap_mtx)
    bits = np.asarray(s.bits)
    S.ensure("bits of the symbols", bits.shape == (nm, N * nb))
    ix = bits.reshape(nm, N, nb) @ (2 ** np.arange(nb)[::-1])
    S.ensure("symbols of the bits", np.array_equal(np.asarray(s), s.coded_symbols[ix]) and np.array_equal(np.asarray(s.symbols), np.asarray(s)))
    S.ensure("demodulation returns the bits", np.array_equal(s.demodulate(s), bits))
    S.ensure("demodulation of the indices returns the bits", np.array_equal(s.demodulate(ix), bits))
    S.ensure("modulation returns the symbols", np.array_equal(np.asarray(s.modulate(bits)), np.asarray(s)))
    other = rng.integers(0, 2, (nm, N * nb)).astype(bool)
    S.ensure("round trip", np.array_equal(s.demodulate(s.modulate(other)), other))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        b = cls.from_bit_array(other, M, dtype=dt)
        extra = np.concatenate([other, rng.integers(0, 2, (nm, nb - 1)).astype(bool)], axis=1)
        c = cls.from_bit_array(extra, M, dtype=dt)
        d = cls.from_bit_array(other[0], M, dtype=dt)
    for o, n in ((b, nm), (c, nm), (d, 1)):
        S.ensure("signal of the bits", np.array_equal(o.demodulate(o), other[:n]) and np.array_equal(np.asarray(o.symbols), np.asarray(o)))
    S.ensure("bits kept", np.array_equal(b.bits, other))
    if M <= 64:
        full = np.array([np.concatenate([rng.permutation(M), rng.integers(0, M, 5)]) for _ in range(nm)])
        x = s.coded_symbols[full]
        o = cls.from_symbol_array(x, M=M)
        S.ensure("signal of the symbols", np.allclose(np.asarray(o), x, atol=1e-5))
        S.ensure("bits of the symbols, for every mode", np.array_equal(o.bits, s._encoding[full].reshape(nm, -1)))
