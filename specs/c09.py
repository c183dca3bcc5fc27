import numpy as np
from pyvc.spec import contract
import qampy.core.ber_functions as bf
import qampy.core.utils as ut
import qampy.signals as sg
from specs.common import *


def gen_sym(rng, shape):
    return ((rng.integers(0, 2, shape) * 2 - 1) + 1j * (rng.integers(0, 2, shape) * 2 - 1)) * rng.uniform(.8, 1.2, shape)


def corr(S, x, y, d):
    """correlation of x with y delayed by d"""
    Nx, Ny = S.shape(x)[0], S.shape(y)[0]
    return S.sum(S.imin(Nx, Ny + d), lambda j: x[j] * S.conj(y[j - d]), lo=S.imax(0, d))


@contract("C09", cases=[dict(dt=np.complex128), dict(dt=np.float64), dict(dt=bool)])
def offset_of_largest_correlation(S, dt):
    Nx, Ny = S.int('Nx', 1, cmax=9), S.int('Ny', 1, cmax=9)
    g = gen_sym if dt is np.complex128 else None
    x, y = S.array('x', (Nx,), dt, gen=g), S.array('y', (Ny,), dt, gen=g)
    v = (lambda a: S.array_of(S.shape(a), np.float64, lambda q: S.ite(a[q], lambda: 1., lambda: 0.))) if dt is bool else (lambda a: a)
    o = S.call(bf.find_sequence_offset, x, y)
    S.ensure("offset in range", S.and_(o > -Ny, o < Nx))
    m = S.abs2 if dt is np.complex128 else S.abs
    S.range(0, Nx + Ny - 1, lambda k: S.ensure("no shift correlates more", S.le(m(corr(S, v(x), v(y), k - (Ny - 1))), m(corr(S, v(x), v(y), o)))))
    S.ensure_unchanged("reference unchanged", x)
    S.ensure_unchanged("sequence unchanged", y)


def jpow(S, k):
    return S.ite(S.eq(k, 0), lambda: S.complex(1., 0.), lambda: S.ite(S.eq(k, 1), lambda: S.complex(0., 1.),
                                                                    lambda: S.ite(S.eq(k, 2), lambda: S.complex(-1., 0.), lambda: S.complex(0., -1.))))


@contract("C09", cases=[dict(dt=np.complex128)])
def offset_and_rotation(S, dt):
    Nx, Ny = S.int('Nx', 1, cmax=9), S.int('Ny', 1, cmax=9)
    x, y = S.array('x', (Nx,), dt, gen=gen_sym), S.array('y', (Ny,), dt, gen=gen_sym)
    o, r, k, ac = S.call(bf.find_sequence_offset_complex, x, y)
    S.ensure("offset in range", S.and_(o > -Ny, o < Nx))
    S.ensure("rotation by a quarter turn", S.and_(k >= 0, k < 4))
    S.ensure_array("rotated sequence", r, (Ny,), lambda n: y[n] * jpow(S, k))
    S.range(0, Nx + Ny - 1, lambda i: S.ensure("no shift correlates more", S.le(S.abs2(corr(S, x, y, i - (Ny - 1))), S.abs2(corr(S, x, y, o)))))
    for q in range(4):
        S.range(0, Nx + Ny - 1, lambda i: S.ensure("no rotation correlates more", S.le(S.re(corr(S, x, y, i - (Ny - 1)) * S.conj(jpow(S, q))), ac)))
    S.ensure_unchanged("reference unchanged", x)
    S.ensure_unchanged("sequence unchanged", y)


@contract("C09", cases=[dict(dt=d, which=w, method=m) for d in (np.complex128, bool) for w in ("tx", "rx") for m in (None, "extend", "truncate") if (w, m) != ("rx", None)])
def adjust_length(S, dt, which, method):
    """the adjusted sequence is a truncation or the periodic repetition starting at the offset"""
    if (which == "tx") == (method == "truncate"):
        Nr = S.int('Nrx', 1, cmax=6)
        Nt = S.int('Ntx', 1, cmin=Nr + 1, cmax=4 * Nr + 1)
    else:
        Nt = S.int('Ntx', 1, cmax=6)
        Nr = S.int('Nrx', 1, cmin=Nt + 1, cmax=4 * Nt + 1)
    off = S.int('offset', cmin=-Nr + 1, cmax=Nt - 1) if which == "rx" else S.int('offset', cmin=-Nt + 1, cmax=Nr - 1)
    g = None if dt is bool else gen_sym
    tx, rx = S.array('tx', (Nt,), dt, gen=g), S.array('rx', (Nr,), dt, gen=g)
    if method == "truncate":
        S.require(Nt > Nr if which == "tx" else Nr > Nt)
        t, r = S.call(bf.adjust_data_length, tx, rx, method)
        N = S.imin(Nt, Nr)
        S.ensure_array("transmitted", t, (N,), lambda n: tx[n])
        S.ensure_array("received", r, (N,), lambda n: rx[n])
    elif which == "tx":
        S.require(S.and_(Nt <= Nr, off > -Nt, off < Nr))
        S.require(S.or_(Nt < Nr, S.eq(off, 0)))
        t, r = S.call(bf.adjust_data_length, tx, rx, method, off)
        S.ensure_array("extended", t, (Nr,), lambda n: tx[(n - off) % Nt])
        S.ensure_array("other sequence", r, (Nr,), lambda n: rx[n])
    else:
        S.require(S.and_(Nr < Nt, off > -Nr, off < Nt))
        t, r = S.call(bf.adjust_data_length, tx, rx, method, off)
        S.ensure_array("extended", r, (Nt,), lambda n: rx[(n - off) % Nr])
        S.ensure_array("other sequence", t, (Nt,), lambda n: tx[n])
    S.ensure_unchanged("transmitted unchanged", tx)
    S.ensure_unchanged("received unchanged", rx)


def offset_by_contract(S):
    """what offset_and_rotation establishes; the same arguments give the same result"""
    known = {}

    def spec(S, x, y):
        key = (id(x), id(y))
        if key not in known:
            Nx, Ny = S.shape(x)[0], S.shape(y)[0]
            n = len(known)
            o, k, ac = S.int('off%d' % n), S.int('rot%d' % n, 0, 3), S.real('ac%d' % n)
            S.require(S.and_(o > -Ny, o < Nx))
            known[key] = (o, S.array_of((Ny,), np.complex128, lambda i: y[i] * jpow(S, k)), k, ac, x, y)
        return known[key][:4]
    S.by_contract(bf.find_sequence_offset_complex, spec, "C09/offset_and_rotation")


@contract("C09", cases=[dict(dt=np.complex128, adjust=a) for a in ("tx", "rx")], trials=30)
def sync_and_adjust(S, dt, adjust):
    Nt, Nr = S.int('Ntx', 1, cmax=9), S.int('Nrx', 1, cmax=9)
    tx, rx = S.array('tx', (Nt,), dt, gen=gen_sym), S.array('rx', (Nr,), dt, gen=gen_sym)
    a, b, Na, Nb = (tx, rx, Nt, Nr) if adjust == "tx" else (rx, tx, Nr, Nt)     # a is adjusted to b
    offset_by_contract(S)
    o, rot, k, ac = S.call(bf.find_sequence_offset_complex, b, a)
    (t, r), acm = S.call(bf.sync_and_adjust, tx, rx, adjust)
    moved, kept = (t, r) if adjust == "tx" else (r, t)
    S.ensure_array("adjusted: shifted and repeated", moved, (Nb,), lambda n: a[(n - o) % Na] * jpow(S, k))
    S.ensure_array("other sequence unchanged", kept, (Nb,), lambda n: b[n])
    S.ensure_eq("reported correlation", acm, ac)
    S.ensure_unchanged("transmitted unchanged", tx)
    S.ensure_unchanged("received unchanged", rx)


@contract("C09", kind="bounded", cases=[dict(adjust=a) for a in ("tx", "rx")], trials=60)
def coincide(S, adjust):
    """sequences that differ by a cyclic shift and quarter turn coincide afterwards"""
    N = S.int('N', 32, cmax=80)
    base = S.array('base', (N,), np.complex128, gen=gen_sym)
    s, k = S.int('shift', 0, cmax=79), S.int('quarter', 0, cmax=3)
    S.require(s < N)
    other = np.roll(base, s) * 1j ** k
    reps = S.int('reps', 1, cmax=3)
    extra = S.int('extra', 0, cmax=5)
    lng = np.tile(other, reps + 1)[:reps * N + (extra if reps > 1 else 0)]
    tx, rx = (base, lng) if adjust == "tx" else (lng, base)
    (t, r), a = bf.sync_and_adjust(tx, rx, adjust)
    d = max((abs(corr(S, lng, base, q)) for q in range(-N + 1, len(lng))))
    tops = sorted(abs(corr(S, lng, base, q)) for q in range(-N + 1, len(lng)))
    S.require(len(tops) < 2 or reps > 1 or tops[-1] > 1.0000001 * tops[-2])
    S.ensure("coincide", t.shape == r.shape and np.allclose(t, r, atol=1e-9) if adjust == "tx" else np.allclose(t, r, atol=1e-9))


@contract("C09", kind="bounded", trials=25)
def signal_synchronisation(S):
    """modes in any order, shifted and rotated, are matched by the signal's own synchronisation"""
    nm, N = S.int('nm', 1, cmax=3), S.int('N', 60, cmax=120)
    s = sg.SignalQAMGrayCoded(4, int(N), nmodes=int(nm))
    perm = S.rng.permutation(nm)
    sh, k = S.rng.integers(0, N, nm), S.rng.integers(0, 4, nm)
    if S.rng.random() < .3:
        sh[:] = 0
    rx = np.array([np.roll(np.asarray(s[perm[i]]), sh[i]) * 1j ** k[i] for i in range(nm)])
    tx0 = np.array(s.symbols)
    t, r = s._sync_and_adjust(s.symbols, rx)
    S.ensure("received unchanged", np.array_equal(r, rx))
    for i in range(nm):
        if sh[i] < N // 4 or sh[i] > 3 * N // 4:
            S.ensure("mode coincides", np.allclose(t[i], r[i], atol=1e-9))
        c = [q for m in range(nm) for q in range(N) for p in range(4) if np.allclose(np.roll(tx0[m], q) * 1j ** p, t[i])]
        S.ensure("shift and rotation of a sent mode", len(c) > 0)
    S.ensure("reference unchanged", np.array_equal(tx0, s.symbols))


@contract("C09", cases=[dict(dt=np.complex128), dict(dt=bool)])
def adjust_modes(S, dt):
    """synchronised modes are only truncated or repeated"""
    nm, Nt, Nr = S.int('nm', 1, cmax=3), S.int('Ntx', 1, cmax=8), S.int('Nrx', 1, cmax=8)
    sig = qam_signal(S, 'sig', (nm, Nr), np.complex128, None)
    tx, rx = S.array('tx', (nm, Nt), dt), S.array('rx', (nm, Nr), dt)
    t, r = S.method(sig, '_adjust_only', tx, rx)
    S.ensure_array("transmitted", t, (nm, Nr), lambda m, n: tx[m, n % Nt])
    S.ensure_array("received", r, (nm, Nr), lambda m, n: rx[m, n])
    S.ensure_unchanged("transmitted unchanged", tx)
    S.ensure_unchanged("received unchanged", rx)


@contract("C09", kind="bounded", cases=[dict(dt=d) for d in (bool, np.uint8, np.int16, np.complex64, np.complex128)], trials=30)
def first_occurrence(S, dt):
    n, m = S.int('n', 2, cmax=40), S.int('m', 1, cmax=3)
    S.require(m < n)
    data = S.rng.integers(0, 2, n).astype(dt)
    if dt is np.int16:
        data = (data * 256 + S.rng.integers(0, 2, n)).astype(dt)
    p = int(S.rng.integers(0, n - m + 1))
    seq = data[p:p + m].copy()
    got = S.call(ut.find_offset, seq, data)
    first = [q for q in range(n - m + 1) if np.array_equal(data[q:q + m], seq)][0]
    S.ensure("first place where the sequence occurs", got == first)


@contract("C09", kind="bounded", cases=[dict(which=w, dt=d) for w in ("tx", "rx") for d in (bool, np.complex128)], trials=30)
def search_synchronisation(S, which, dt):
    """sequences with different starts and some wrong symbols are aligned by searching for error-free pieces"""
    N, L = S.int('N', 60, cmax=120), S.int('L', 20, cmax=26)
    tx = S.rng.integers(0, 2, N).astype(bool) if dt is bool else gen_sym(S.rng, N)
    s = int(S.rng.integers(0, N - 2 * L))
    rx = np.roll(tx, -s)
    bad = 0
    if S.rng.random() < .5:
        bad = L
        rx = rx.copy()
        rx[int(S.rng.integers(0, L))] = ~rx[0] if dt is bool else 7.
        q = int(S.rng.integers(0, L))
        rx[q] = not tx[(q + s) % N] if dt is bool else 9.
    tx0, rx0 = tx.copy(), rx.copy()
    o, out = S.call(getattr(bf, "sync_%s2%s" % (("tx", "rx") if which == "tx" else ("rx", "tx"))), tx, rx, int(L))
    moved = tx if which == "tx" else rx
    S.ensure("cyclic shift", np.array_equal(out, np.roll(moved, -o if which == "tx" else o)))
    S.ensure("aligned apart from the wrong symbols", np.count_nonzero(out != (rx if which == "tx" else tx)) <= 2)
    S.ensure("inputs unchanged", np.array_equal(tx, tx0) and np.array_equal(rx, rx0))
