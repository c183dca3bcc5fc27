import numpy as np
from pyvc.spec import contract
import qampy.core.pythran_dsp as pd
import qampy.core.signal_quality as sq
import qampy.theory as th
import qampy.signals as sg
from specs.common import *
from specs.c02 import gen_alpha, gen_sample
from specs import c02

DT = [dict(dt=np.complex128), dict(dt=np.complex64)]


def gen_pts(rng, shape):
    return rng.normal(size=shape) + 1j * rng.normal(size=shape)


def bitmap(S, dt):
    nb, K = S.int('nb', 1, cmax=4), S.int('K', 1, cmax=4)
    return nb, K, S.array('bm', (nb, K, 2), dt, gen=gen_pts)


@contract("C16", cases=DT)
def soft_demapper(S, dt):
    nb, K, bm = bitmap(S, dt)
    N = S.int('N', 0, cmax=8)
    num = S.int('num', 1, cmax=4)
    S.require(num <= nb)
    rx = S.array('rx', (N,), dt, gen=gen_pts)
    snr = S.real('snr', 0.05, crange=(.05, 20.))
    l = S.call(pd.soft_l_value_demapper, rx, num, snr, bm)
    like = lambda n, b, v: S.sum(K, lambda k: S.exp(-snr * S.abs2(bm[b, k, v] - rx[n])))
    S.ensure_array("log likelihood ratio", l, (N, num), lambda n, b: S.fn(np.log, like(n, b, 1)) - S.fn(np.log, like(n, b, 0)))
    S.ensure_unchanged("samples unchanged", rx)
    S.ensure_unchanged("bit map unchanged", bm)


@contract("C16", cases=DT)
def soft_demapper_minmax(S, dt):
    nb, K, bm = bitmap(S, dt)
    N = S.int('N', 0, cmax=8)
    num = S.int('num', 1, cmax=4)
    S.require(num <= nb)
    rx = S.array('rx', (N,), dt, gen=gen_pts)
    snr = S.real('snr', 0.05, crange=(.05, 20.))
    l = S.call(pd.soft_l_value_demapper_minmax, rx, num, snr, bm)
    dmin = lambda n, b, v: S.min(K, lambda k: S.abs2(bm[b, k, v] - rx[n]))
    S.ensure_array("scaled difference of the smallest squared distances", l, (N, num), lambda n, b: snr * (dmin(n, b, 0) - dmin(n, b, 1)))
    S.ensure_unchanged("samples unchanged", rx)
    S.ensure_unchanged("bit map unchanged", bm)


@contract("C16", cases=DT)
def estimate_snr(S, dt):
    N, L = S.int('N', 1, cmax=6), S.int('L', 1, cmax=14)
    alpha = S.array('alpha', (N,), dt, gen=lambda rng, sh: np.arange(sh[0]) + 1j * (np.arange(sh[0]) % 2))
    S.forall((N, N), lambda i, j: None)
    S.assume_forall((N, N), lambda i, j: S.or_(S.eq(i, j), S.not_(S.eq(alpha[i], alpha[j]))))
    if S.symbolic:
        tx = S.array('tx', (L,), dt)
    else:
        tx = S.array('tx', (L,), dt, gen=lambda rng, sh: alpha[rng.integers(0, int(N), sh)])
    rx = S.array('rx', (L,), dt, gen=gen_pts)
    snr, s0, n0 = S.call(pd.estimate_snr, rx, tx, alpha)
    ind = lambda i, l: S.eq(tx[l], alpha[i])
    cnt = lambda i: S.count(L, lambda l: ind(i, l))
    mu = lambda i: S.sum(L, lambda l: S.ite(ind(i, l), lambda: rx[l], 0.)) / cnt(i)
    sent = lambda i: cnt(i) > 0
    var = lambda i: S.sum(L, lambda l: S.ite(ind(i, l), lambda: S.abs2(rx[l] - mu(i)), 0.)) / cnt(i)
    want0 = S.sum(N, lambda i: S.ite(sent(i), lambda: S.abs2(mu(i)) * cnt(i) / L, 0.))
    wantn = S.sum(N, lambda i: S.ite(sent(i), lambda: var(i) * cnt(i) / L, 0.))
    S.ensure_eq("signal power is the power of the per-symbol means", s0, want0)
    S.ensure_eq("noise power is the variance around the means", n0, wantn)
    S.ensure_eq("ratio", snr * wantn, want0) if not S.symbolic else S.ensure_eq("ratio", snr, s0 / n0)
    S.ensure_unchanged("received unchanged", rx)
    S.ensure_unchanged("sent unchanged", tx)


@contract("C16")
def mi_mc(S):
    M, L = S.int('M', 1, cmax=5), S.int('L', 1, cmax=6)
    noise = S.array('noise', (L,), np.complex128, gen=gen_pts)
    symbs = S.array('symbs', (M,), np.complex128, gen=gen_pts)
    N0 = S.real('N0', 0.05, crange=(.05, 4.))
    r = S.call(pd.cal_mi_mc, noise, symbs, N0)
    pen = lambda i, l: S.log2(S.sum(M, lambda j: S.exp(-(S.abs2(symbs[i] - symbs[j]) + 2 * S.re((symbs[i] - symbs[j]) * noise[l])) / N0)))
    S.ensure_eq("order minus mean penalty", r, S.log2(M) - S.sum(M, lambda i: S.sum(L, lambda l: pen(i, l))) / M / L)
    S.ensure_unchanged("noise unchanged", noise)
    S.ensure_unchanged("symbols unchanged", symbs)


@contract("C16")
def mi_fast(S):
    M, L = S.int('M', 1, cmax=5), S.int('L', 1, cmax=6)
    symbs = S.array('symbs', (M,), np.complex128, gen=gen_pts)
    rx = S.array('rx', (L,), np.complex128, gen=gen_pts)
    ix = S.array('ix', (L,), np.int64, lo=0, hi=M - 1)
    tx = S.array_of((L,), np.complex128, lambda l: symbs[ix[l]]) if S.symbolic else symbs[ix]
    N0 = S.real('N0', 0.05, crange=(.05, 4.))
    r = S.call(pd.cal_mi_mc_fast, rx, tx, symbs, N0)
    term = lambda l, j: S.exp(-(S.abs2(rx[l] - symbs[j]) - S.abs2(rx[l] - tx[l])) / N0)
    pen = lambda l: S.log2(S.sum(M, lambda j: term(l, j)))
    S.ensure_eq("order minus mean penalty", r, S.log2(M) - S.sum(L, pen) / L)
    S.forall((L,), lambda l: S.ensure_eq("likelihood term of the sent point", term(l, ix[l]), 1.))
    S.lemma_forall("likelihood term of the sent point is part of the sum", (L,), lambda l: S.le(1., S.sum(M, lambda j: term(l, j))))
    S.sum_le("log-sum penalty is not negative", L, lambda l: 0., pen)
    S.ensure("never exceeds log2 of the order", S.le(r, S.log2(M)))
    S.ensure_unchanged("received unchanged", rx)


@contract("C16")
def gmi_mc(S):
    nb = S.int('nb', 1, cmax=3, hi=3)
    nb = int(nb) if not S.symbolic else nb
    K, ns = S.int('K', 1, cmax=4), S.int('ns', 1, cmax=4)
    M = 4 if S.symbolic else 2 ** nb
    nbits = 2 if S.symbolic else nb
    symbs = S.array('symbs', (M,), np.complex128, gen=gen_pts)
    bm = S.array('bm', (nbits, K, 2), np.complex128, gen=gen_pts)
    snr = S.real('snr', 0.05, crange=(.05, 20.))
    with S.recorder() as R:
        r = S.call(pd.cal_gmi_mc, symbs, snr, ns, bm)
    z = lambda l: S.complex(R[0][l], R[1][l]) * S.sqrt(1 / snr) / np.sqrt(2)
    ex = lambda s, t, l: S.exp(-snr * (2 * S.re(z(l) * (s - t)) + S.abs2(s - t)))
    pen = lambda k, b, l, q: S.log2(S.sum(M, lambda i: ex(bm[k, q, b], symbs[i], l)) / S.sum(K, lambda i: ex(bm[k, q, b], bm[k, i, b], l)))
    tot = S.sum(nbits, lambda k: S.sum(2, lambda b: S.sum(ns, lambda l: S.sum(K, lambda q: pen(k, b, l, q)))))
    S.ensure_eq("bits minus mean penalty", r, nbits - tot / (M * ns))


def gen_bits(rng, shape):
    """every bit is set for half of the points, in arbitrary order"""
    M = 1
    nb = int(np.log2(shape[0]))if len(shape) == 2 else 1
    b = np.array([[(i >> k) & 1 for k in range(shape[1])] for i in range(shape[0])], bool)
    return rng.permutation(b, axis=0) if rng.random() < .5 else np.stack([rng.permutation(b[:, k]) for k in range(shape[1])], 1)


def bitmap_contract(S, dt, M):
    nb = int(np.log2(M))
    coded = S.array('coded', (M,), dt, gen=lambda rng, sh: rng.permutation(np.arange(sh[0])) + 1j)
    bits = S.array('bits', (M, nb), bool, gen=gen_bits)
    for b in range(nb):
        S.require(S.eq(S.count(M, lambda j: bits[j, b]), float(M // 2)))
    flat = S.call(np.reshape, bits, (M * nb,))
    bm = S.call(sq.generate_bitmapping_mtx, coded, flat, M, dtype=dt)
    S.ensure_array("one list of half the alphabet per bit and value", bm, (nb, M // 2, 2), lambda b, k, v: bm[b, k, v])
    S.ensure("dtype", S.dtype(bm) == np.dtype(dt))
    bit = lambda j, b: S.ite(bits[j, b], 1.0, 0.0)
    for b in range(nb):
        for v in (0, 1):
            S.forall((M // 2,), lambda k: S.ensure("every entry is a point with that bit value",
                                                   S.or_(*[S.and_(S.eq(bm[b, k, v], coded[j]), S.eq(bit(j, b), float(v))) for j in range(M)])))
            S.forall((M,), lambda j: S.ensure("every point with that bit value is listed",
                                              S.implies(S.eq(bit(j, b), float(v)), S.or_(*[S.eq(bm[b, k, v], coded[j]) for k in range(M // 2)]))))
    S.ensure_unchanged("alphabet unchanged", coded)
    S.ensure_unchanged("bits unchanged", bits)


@contract("C16", cases=[dict(dt=d, M=4) for d in (np.complex128, np.complex64)])
def bit_map_matrix(S, dt, M):
    bitmap_contract(S, dt, M)


@contract("C16", cases=[dict(dt=d, M=m) for d in (np.complex128, np.complex64) for m in (8, 16, 64, 128)], kind="bounded", trials=4)
def bit_map_matrix_higher(S, dt, M):
    bitmap_contract(S, dt, M)


# ---------------------------------------------------------------------------------------------- signal objects
def qam_any(S, dt, M, nm, L, Ls=None, clean=False):
    """a signal with any alphabet and labelling, its reference symbols drawn from the alphabet"""
    nb = int(np.log2(M))
    coded = S.array('coded', (M,), dt, gen=lambda rng, sh: np.array([(i % 4) * 2 - 3 + 1j * (2 * (i // 4) - 3) for i in range(M)]) / 3 + .05 * rng.normal(size=M))
    enc = S.array('enc', (M, nb), bool, gen=lambda rng, sh: np.array([[(i >> k) & 1 for k in range(nb)] for i in rng.permutation(M)], bool))
    Ls = L if Ls is None else Ls
    ix = S.array('ix', (nm, Ls), np.int64, lo=0, hi=M - 1)
    S.assume_forall((M, M), lambda i, j: S.or_(S.eq(i, j), S.not_(S.eq(coded[i], coded[j]))))
    if S.symbolic:
        sym = S.array('symb', (nm, Ls), dt)
        S.assume_forall((nm, Ls), lambda m, q: S.eq(sym[m, q], coded[ix[m, q]]))
    else:
        sym = S.array('symb', (nm, Ls), dt, gen=lambda rng, sh: coded[ix])
    sh_ls = Ls
    bm = S.array('bm', (nb, M // 2, 2), dt, gen=lambda rng, sh: np.array([[[coded[enc[:, b] == v][k] for v in (0, 1)] for k in range(M // 2)] for b in range(nb)]))
    noisy = lambda rng, sh: coded[ix[:, np.arange(sh[1]) % sh_ls]] + .3 * (rng.normal(size=sh) + 1j * rng.normal(size=sh))
    sig = qam_signal(S, 'sig', (nm, L), dt, coded, M=M, encoding=enc, symbols=sym, bitmap=bm, gen=noisy)
    return sig, coded, enc, ix, sym, bm


def pd_det():
    import qampy.core.equalisation.pythran_equalisation as pe
    return pe.make_decision


def mods(S):
    S.by_contract(pd.estimate_snr, spec_estimate_snr, "C16 estimate_snr")
    S.by_contract(pd.soft_l_value_demapper, spec_llr, "C16 soft_demapper")
    S.by_contract(pd.soft_l_value_demapper_minmax, spec_llr_minmax, "C16 soft_demapper_minmax")
    S.by_contract(pd.cal_mi_mc_fast, spec_mi_fast, "C16 mi_fast")
    S.by_contract(pd.cal_mi_mc, spec_mi_mc, "C16 mi_mc")


@contract("C16", cases=[dict(dt=np.complex128, given=g) for g in (False, True)])
def signal_est_snr(S, dt, given):
    """per mode, from that mode's samples and symbols"""
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=24)
    sig, coded, enc, ix, sym, bm = qam_any(S, dt, 4, nm, L)
    mods(S)
    rx = S.array('rx', (nm, L), dt) if given else sig
    a = (rx,) if given else ()
    snr, s0, n0 = S.method(sig, 'est_snr', *a, synced=True, verbose=True)
    if not S.symbolic:
        S.require(all(len(set(np.asarray(sym[m]))) < L for m in range(nm)))
    want = lambda m: spec_estimate_snr(S, S.row(rx, m), S.row(sym, m), coded)
    S.ensure_array("ratio", snr, (nm,), lambda m: want(m)[0])
    S.ensure_array("signal power", s0, (nm,), lambda m: want(m)[1])
    S.ensure_array("noise power", n0, (nm,), lambda m: want(m)[2])
    S.ensure_unchanged("received unchanged", rx)
    S.ensure_unchanged("symbols unchanged", sym)


@contract("C16", cases=[dict(dt=np.complex128, mode=m, mm=mm) for m in ("estimated", "scalar", "array") for mm in (False, True)], trials=6)
def signal_gmi(S, dt, mode, mm):
    M = 4 if S.symbolic or S.rng.random() < .5 else 16
    nb = int(np.log2(M))
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=16)
    if mode == "scalar":
        S.require(nm > 1)
    sig, coded, enc, ix, sym, bm = qam_any(S, dt, M, nm, L)
    mods(S)
    if S.symbolic:
        S.by_contract(pd_det(), lambda S_, E, symbs: spec_make_decision(S_, E, symbs), "C02 make_decision_kernel")
    kw = {}
    if mode == "estimated":
        if not S.symbolic:
            S.require(all(len(set(np.asarray(sym[m]))) < L for m in range(nm)))
        snr = lambda m: spec_estimate_snr(S, S.row(sig, m), S.row(sym, m), coded)[0]
    elif mode == "scalar":
        s = S.real('snr', crange=(-3, 12.))
        kw = dict(snr=s)
        snr = lambda m: 10 ** (s / 10)
    else:
        s = S.array('snr', (nm,), np.float64, lo=-3, hi=12)
        kw = dict(snr=s)
        snr = lambda m: 10 ** (s[m] / 10)
    gmi, pb = S.method(sig, 'cal_gmi', synced=True, llr_minmax=mm, **kw)
    f = spec_llr_minmax if mm else spec_llr

    def per_bit(m, b):
        l = f(S, S.row(sig, m), nb, snr(m), bm)
        sent = lambda q: S.argmin(M, lambda i: S.abs2(sym[m, q] - coded[i]))
        return 1 - S.sum(L, lambda q: S.log2(1 + S.exp(S.ite(enc[sent(q), b], lambda: -1., lambda: 1.) * l[q, b]))) / L
    for b in range(nb):
        S.forall((nm,), lambda m: S.ensure_eq("gmi per bit: value", pb[m, b], per_bit(m, b)))
    S.ensure_array("gmi per bit", pb, (nm, nb), lambda m, b: pb[m, b])
    S.ensure_array("gmi is the sum over the bits", gmi, (nm,), lambda m: S.sum(nb, lambda b: pb[m, b]))
    S.ensure_unchanged("samples unchanged", sig)


@contract("C16", cases=[dict(dt=np.complex128, mode=m, fast=f) for m in ("estimated", "scalar", "array") for f in (False, True)], trials=6)
def signal_mi(S, dt, mode, fast):
    M = 4
    nm, L = S.int('nm', 1, cmax=3), S.int('L', 1, cmax=16)
    if mode == "scalar":
        S.require(nm > 1)
    sig, coded, enc, ix, sym, bm = qam_any(S, dt, M, nm, L)
    mods(S)
    kw = {}
    if mode == "estimated":
        if not S.symbolic:
            S.require(all(len(set(np.asarray(sym[m]))) < L for m in range(nm)))
        N0 = lambda m: 1 / spec_estimate_snr(S, S.row(sig, m), S.row(sym, m), coded)[0]
    elif mode == "scalar":
        s = S.real('snr', crange=(-3, 12.))
        kw = dict(snr=s)
        N0 = lambda m: 10 ** (-s / 10)
    else:
        s = S.array('snr', (nm,), np.float64, lo=-3, hi=12)
        kw = dict(snr=s)
        N0 = lambda m: 10 ** (-s[m] / 10)
    mi = S.method(sig, 'cal_mi', synced=True, fast=fast, **kw)
    if fast:
        S.ensure_array("mutual information per mode", mi, (nm,), lambda m: spec_mi_fast(S, S.row(sig, m), S.row(sym, m), coded, N0(m)))
    else:
        noise = lambda m: S.array_of((L,), dt, lambda q: sig[m, q] - sym[m, q])
        S.ensure_array("mutual information per mode", mi, (nm,), lambda m: spec_mi_mc(S, noise(m), coded, N0(m)))
    S.ensure_unchanged("samples unchanged", sig)


@contract("C16")
def theory_mi(S):
    """Monte-Carlo mutual information of the unit-power alphabet over the drawn noise"""
    M, L = S.int('M', 1, cmax=5), S.int('N', 1, cmax=6)
    symbs = S.array('symbs', (M,), np.complex128, gen=gen_pts)
    snr = S.real('snr', crange=(-3, 12.))
    mods(S)
    with S.recorder() as R:
        r = S.call(th.sim_mi_mc, symbs, snr, L)
    P = S.sum(M, lambda i: S.abs2(S.elem(S.initial(symbs), i))) / M
    N0 = 10 ** (-snr / 10)
    sig = S.sqrt(N0 / 2)
    al = S.array_of((M,), np.complex128, lambda i: S.elem(S.initial(symbs), i) / S.sqrt(P))
    nz = S.array_of((L,), np.complex128, lambda l: S.complex(R[0][l], R[1][l]) * sig)
    S.ensure_eq("mutual information of the normalised alphabet", r, spec_mi_mc(S, nz, al, N0))
