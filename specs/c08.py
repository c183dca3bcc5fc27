import numpy as np
from pyvc.spec import contract, Raised
import qampy.core.ber_functions as bf
import qampy.core.signal_quality as sq
import qampy.core.equalisation.pythran_equalisation as pe
import qampy.signals as sg
from specs.common import *
from specs.c16 import qam_any

LEN = ("equal", "repeat", "truncate")


def setup(S, dt, M, length, nm=None):
    nm = S.int('nm', 1, cmax=3) if nm is None else nm
    L = S.int('L', 1, cmax=14)
    if length == "equal":
        Ls = L
    elif length == "repeat":
        Ls = S.int('Ls', 1, cmin=1, cmax=L)
        S.require(Ls < L)
    else:
        Ls = S.int('Ls', 1, cmin=L + 1, cmax=2 * L + 3)
        S.require(Ls > L)
    sig, coded, enc, ix, sym, bm = qam_any(S, dt, M, nm, L, Ls)
    S.by_contract(pe.make_decision, spec_make_decision, "C02/make_decision_kernel")
    return nm, L, Ls, sig, coded, enc, ix, sym


def nearest_index(S, x, coded, M):
    return S.argmin(M, lambda i: S.abs2(x - coded[i]))


def unchanged(S, sig, sym, coded):
    S.ensure_unchanged("received unchanged", sig)
    S.ensure_unchanged("reference unchanged", sym)
    S.ensure_unchanged("alphabet unchanged", coded)


@contract("C08", cases=[dict(dt=d, M=m, length=l) for d, m, l in ((np.complex128, 4, "equal"), (np.complex64, 4, "equal"), (np.complex128, 16, "equal"),
                                                              (np.complex128, 4, "repeat"), (np.complex128, 4, "truncate"))])
def symbol_error_rate(S, dt, M, length):
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, length)
    ser = S.method(sig, 'cal_ser', synced=True)
    dec = lambda m, n: coded[nearest_index(S, S.elem(sig, m, n), coded, M)]
    wrong = lambda m, n: S.not_(S.eq(dec(m, n), sym[m, n % Ls]))
    S.ensure_array("wrong decisions over positions", ser, (nm,), lambda m: S.count(L, lambda n: wrong(m, n)) / L)
    S.forall((nm,), lambda m: S.ensure("between 0 and 1", S.and_(ser[m] >= 0, ser[m] <= 1)))
    unchanged(S, sig, sym, coded)


@contract("C08", cases=[dict(dt=np.complex128, M=4, length="equal"), dict(dt=np.complex128, M=4, length="repeat")])
def symbol_errors_listed(S, dt, M, length):
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, length)
    ser, errs, tx = S.method(sig, 'cal_ser', synced=True, verbose=True)
    dec = lambda m, n: coded[nearest_index(S, S.elem(sig, m, n), coded, M)]
    S.ensure_array("difference of decided and sent symbol", errs, (nm, L), lambda m, n: dec(m, n) - sym[m, n % Ls])
    S.ensure_array("sent symbols", tx, (nm, L), lambda m, n: sym[m, n % Ls])
    S.ensure_array("wrong decisions over positions", ser, (nm,), lambda m: S.count(L, lambda n: S.not_(S.eq(dec(m, n), sym[m, n % Ls]))) / L)


@contract("C08", cases=[dict(dt=d, M=m, length=l) for d, m, l in ((np.complex128, 4, "equal"), (np.complex64, 4, "equal"), (np.complex128, 16, "equal"),
                                                              (np.complex128, 4, "repeat"), (np.complex128, 4, "truncate"))])
def bit_error_rate(S, dt, M, length):
    nb = int(np.log2(M))
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, length)
    ber, errs, tx = S.method(sig, 'cal_ber', synced=True, verbose=True)
    bit = lambda x, b: enc[nearest_index(S, x, coded, M), b]
    rxb = lambda m, q: bit(S.elem(sig, m, q // nb), q % nb)
    txb = lambda m, q: bit(sym[m, (q // nb) % Ls], q % nb)
    xor = lambda a, b: S.not_(S.eq(a, b))
    S.ensure_array("sent bits", tx, (nm, nb * L), txb)
    S.ensure_array("wrong bits", errs, (nm, nb * L), lambda m, q: xor(txb(m, q), rxb(m, q)))
    S.ensure_array("wrong bits over bits", ber, (nm,), lambda m: S.count(nb * L, lambda q: xor(txb(m, q), rxb(m, q))) / (nb * L))
    rate = lambda m: S.count(nb * L, lambda q: xor(txb(m, q), rxb(m, q))) / (nb * L) if S.symbolic else ber[m]
    S.forall((nm,), lambda m: S.ensure("between 0 and 1", S.and_(rate(m) >= 0, rate(m) <= 1)))
    unchanged(S, sig, sym, coded)


@contract("C08", cases=[dict(dt=d, M=4, length=l) for d, l in ((np.complex128, "equal"), (np.complex64, "equal"), (np.complex128, "repeat"), (np.complex128, "truncate"))])
def error_vector_magnitude(S, dt, M, length):
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, length)
    evm = S.method(sig, 'cal_evm', synced=True)
    S.ensure_array("root of the mean squared distance", evm, (nm,), lambda m: S.sqrt(S.mean(L, lambda n: S.abs2(S.elem(sig, m, n) - sym[m, n % Ls]))))
    unchanged(S, sig, sym, coded)


@contract("C08", cases=[dict(dt=d, M=4) for d in (np.complex128, np.complex64)])
def blind_error_vector_magnitude(S, dt, M):
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, "equal")
    evm = S.method(sig, 'cal_evm', blind=True)
    near = lambda m, n: S.min(M, lambda i: S.abs2(S.elem(sig, m, n) - coded[i]))
    S.ensure_array("root of the mean squared distance to the decision", evm, (nm,), lambda m: S.sqrt(S.mean(L, lambda n: near(m, n))))
    unchanged(S, sig, sym, coded)


@contract("C08", cases=[dict(what=w) for w in ("cal_ser", "cal_ber", "cal_evm")])
def zero_without_errors(S, what):
    dt, M = np.complex128, 4
    nm, L, Ls, sig, coded, enc, ix, sym = setup(S, dt, M, "equal")
    S.assume_forall((nm, L), lambda m, n: S.eq(S.elem(sig, m, n), sym[m, n])) if S.symbolic else None
    if not S.symbolic:
        sig[:] = sym
    r = S.method(sig, what, synced=True)
    S.ensure_array("one value per mode", r, (nm,), lambda m: r[m])
    at = lambda m, n: S.elem(sig, m, n)
    near = lambda m, n: nearest_index(S, at(m, n), coded, M)
    if what != "cal_evm":
        S.lemma_forall("the nearest point is not further than the sent point", (nm, L), lambda m, n: S.le(S.abs2(at(m, n) - coded[near(m, n)]), S.abs2(at(m, n) - coded[ix[m, n]])))
        S.lemma_forall("the sent point is at no distance", (nm, L), lambda m, n: S.eq(S.abs2(at(m, n) - coded[ix[m, n]]), 0.))
        S.lemma_forall("the nearest point is at no distance", (nm, L), lambda m, n: S.le(S.abs2(at(m, n) - coded[near(m, n)]), 0.))
        S.lemma_forall("decided symbol is the sent one", (nm, L), lambda m, n: S.eq(coded[near(m, n)], at(m, n)))
        S.lemma_forall("decided symbol is the sent one of the list", (nm, L), lambda m, n: S.eq(coded[near(m, n)], sym[m, n]))
    bit = lambda x, b: enc[nearest_index(S, x, coded, M), b]
    if what == "cal_ser":
        n, err = L, lambda m, q: S.ite(S.eq(coded[near(m, q)], sym[m, q]), 0., 1.)
    elif what == "cal_ber":
        n, err = 2 * L, lambda m, q: S.ite(S.eq(bit(sym[m, q // 2], q % 2), bit(at(m, q // 2), q % 2)), 0., 1.)
    else:
        n, err = L, lambda m, q: S.abs2(at(m, q) - sym[m, q])

    def zero(m):
        v = S.sum(n, lambda q: err(m, q)) / n
        S.sum_le("no error at any position", n, lambda q: err(m, q), lambda q: 0.)
        S.ensure_eq("the average of no error", v, 0.)
        S.ensure_eq("value", r[m], S.sqrt(v) if what == "cal_evm" else v)
    S.forall((nm,), zero)


# ------------------------------------------------------------------------------------------- not synchronised
@contract("C08", cases=[dict(what=w) for w in ("cal_ser", "cal_ber", "cal_evm")])
def against_the_aligned_reference(S, what):
    """one mode that is not aligned: the metric is the one against whatever the alignment returns"""
    dt, M, nb = np.complex128, 4, 2
    nm = 1
    L, Ls = S.int('L', 1, cmax=14), S.int('Ls', 1, cmax=14)
    sig, coded, enc, ix, sym, bm = qam_any(S, dt, M, nm, L, Ls)
    S.by_contract(pe.make_decision, spec_make_decision, "C02/make_decision_kernel")
    if S.symbolic:
        tx, acm = S.array('aligned', (L,), dt), S.real('acm')
        S.require(acm > -100)
        S.by_contract(bf.sync_and_adjust, lambda S_, t, r, adjust="tx": ((tx, r), acm), "C09/sync_and_adjust")
    else:
        (tx, _), acm = bf.sync_and_adjust(np.array(sym[0]), np.array(np.asarray(sig)[0]))
    r = S.method(sig, what)
    dec = lambda x: nearest_index(S, x, coded, M)
    at = lambda n: S.elem(sig, 0, n)
    if what == "cal_ser":
        want = lambda: S.count(L, lambda n: S.not_(S.eq(coded[dec(at(n))], tx[n]))) / L
    elif what == "cal_ber":
        want = lambda: S.count(nb * L, lambda q: S.not_(S.eq(enc[dec(at(q // nb)), q % nb], enc[dec(tx[q // nb]), q % nb]))) / (nb * L)
    else:
        want = lambda: S.sqrt(S.mean(L, lambda n: S.abs2(at(n) - tx[n])))
    S.ensure_array(what, r, (nm,), lambda m: want())
    unchanged(S, sig, sym, coded)


@contract("C08", kind="bounded", cases=[dict(cls=c) for c in ("qam", "psk", "symbols", "pilots")], trials=12)
def public_objects(S, cls):
    """metrics of generated signals with known symbol errors, aligned or shifted by the library's own alignment"""
    nm, N = S.int('nm', 1, cmax=3), S.int('N', 40, cmax=90)
    M = [4, 16, 64][int(S.rng.integers(0, 3))] if cls != "psk" else [2, 4, 8, 16][int(S.rng.integers(0, 4))]
    if cls == "qam":
        s = sg.SignalQAMGrayCoded(M, N, nmodes=nm)
    elif cls == "psk":
        s = sg.SignalPSKGrayCoded(M, N, nmodes=nm)
    elif cls == "symbols":
        M = 8
        al = np.exp(2j * np.pi * np.arange(8) / 8) * np.array([1, .5] * 4)
        s = sg.SymbolOnlySignal(M, N, al, nmodes=nm)
    else:
        s = sg.SignalWithPilots(M, 8 + 10 * 6, 8, 10, nframes=int(S.rng.integers(1, 4)), nmodes=nm)
    pil = cls == "pilots"
    d = s.get_data() if pil else s
    al = np.asarray(d.coded_symbols)
    ref = np.asarray(d.symbols)
    S.ensure("zero symbol errors", np.array_equal(s.cal_ser(synced=True), np.zeros(nm)))
    if cls != "symbols":
        S.ensure("zero bit errors", np.array_equal(s.cal_ber(synced=True), np.zeros(nm)))
    S.ensure("zero error vector", np.allclose(d.cal_evm(synced=True), 0, atol=1e-12))
    S.ensure("zero error vector (blind)", np.allclose(d.cal_evm(blind=True), 0, atol=1e-12))
    r = s.copy()
    dmin = min(abs(a - b) for i, a in enumerate(al) for b in al[:i])
    n = r.shape[1]
    bad = S.rng.random((nm, n)) < .1 * np.arange(1, nm + 1)[:, None]
    where = np.tile(s._idx_dat, s.nframes) if pil else np.ones(n, bool)
    bad &= where
    off = .3 * dmin * np.exp(2j * np.pi * S.rng.random((nm, n)))
    off[:, ~where] = 0
    vals = np.asarray(r) + off
    vals[bad] = al[S.rng.integers(0, len(al), bad.sum())]
    r[:] = vals
    pay = np.asarray(r)[:, where]
    dec = np.argmin(abs(pay[:, :, None] - al), axis=2)
    ref = ref[:, np.arange(pay.shape[1]) % ref.shape[1]]
    sent = np.argmin(abs(ref[:, :, None] - al), axis=2)
    S.ensure("symbol error rate", np.allclose(r.cal_ser(synced=True), (dec != sent).mean(1)))
    if cls != "symbols":
        e = np.asarray(d._encoding)
        S.ensure("bit error rate", np.allclose(r.cal_ber(synced=True), (e[dec] != e[sent]).reshape(nm, -1).mean(1)))
    if not pil:
        S.ensure("error vector magnitude", np.allclose(r.cal_evm(synced=True), np.sqrt((abs(pay - ref) ** 2).mean(1))))
    S.ensure("blind error vector magnitude", np.allclose((r.get_data() if pil else r).cal_evm(blind=True), np.sqrt((abs(pay - al[dec]) ** 2).mean(1))))


@contract("C08", kind="bounded", trials=8)
def shifted_objects(S):
    """shifted, rotated and interchanged modes with a few wrong symbols: the rates are those of the wrong symbols"""
    nm, N, M = S.int('nm', 1, cmax=3), S.int('N', 150, cmax=300), [4, 16][int(S.rng.integers(0, 2))]
    s = sg.SignalQAMGrayCoded(M, N, nmodes=nm)
    al = np.asarray(s.coded_symbols)
    perm = S.rng.permutation(nm)
    x = np.asarray(s)[perm].copy()
    k = 0
    bad = S.rng.random((nm, N)) < .04
    new = x.copy()
    new[bad] = al[S.rng.integers(0, M, bad.sum())]
    want = (abs(new - x) > 1e-9).mean(1)
    sh = int(S.rng.integers(0, N // 5))
    rx = np.roll(new, sh, axis=1) * 1j ** k
    r = s.copy()
    r[:] = rx
    S.ensure("symbol error rate", np.allclose(np.sort(r.cal_ser()), np.sort(want)))
    idx = lambda v: np.argmin(abs(v[:, :, None] - al), axis=2)
    e = np.asarray(s._encoding)
    S.ensure("bit error rate", np.allclose(r.cal_ber(), (e[idx(new)] != e[idx(x)]).reshape(nm, -1).mean(1)))
    S.ensure("error vector magnitude", np.allclose(r.cal_evm(), np.sqrt((abs(new - x) ** 2).mean(1))))


# --------------------------------------------------------------------------------------------- bit sequences
@contract("C08")
def bit_error_rate_of_sequences(S):
    n = S.int('n', 1, cmax=30)
    rx, tx = S.array('rx', (n,), bool), S.array('tx', (n,), bool)
    thr = S.real('thr', 0., 1., crange=(0., 1.))
    v = S.attempt(bf.cal_ber_syncd, rx, tx, thr)
    errs = S.count(n, lambda q: S.not_(S.eq(rx[q], tx[q])))
    if not isinstance(v, Raised):
        ber, e, N = v
        S.ensure_eq("rate", ber, errs / n)
        S.ensure_eq("number of errors", e, errs)
        S.ensure_eq("number of bits", N, n)
        S.ensure("not above the threshold", S.le(errs / n, thr))
    else:
        S.ensure("refused above the threshold only", errs / n > thr)
    S.ensure_unchanged("received unchanged", rx)
    S.ensure_unchanged("sent unchanged", tx)
