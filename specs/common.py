"""shared builders for signal objects used in the contracts"""
import numpy as np
import qampy.signals as sg


def qam_signal(S, name, shape, dt, coded, cls=sg.SignalQAMGrayCoded, encoding=None, M=None, fb=1., fs=1., symbols=None, bits=None, bitmap=None, code=None, gen=None):
    """a signal object in an arbitrary state: any samples, any alphabet, any labelling"""
    at = dict(_fs=fs, _fb=fb, _M=M, _symbols=symbols, _coded_symbols=coded)
    if cls is not sg.SymbolOnlySignal:
        at.update(_bits=bits, _encoding=encoding, _bitmap_mtx=bitmap, _code=code)
    return S.array(name, shape, dt, cls=cls, attrs=at, gen=gen)


# ---- functional contracts, used at call sites instead of the bodies; each is proved by a contract of its own
def spec_det_symbol(S, X, symbs):
    M = S.shape(symbs)[0]
    return symbs[S.argmin(M, lambda q: S.abs2(X - symbs[q]))], S.min(M, lambda q: S.abs2(X - symbs[q]))


def spec_select_angle_index(S, x, N):
    """index with the least sum over the N rows ending at i, stored at i-N//2; 0 where the window does not fit"""
    L, A = S.shape(x)
    win = lambda i, k: S.sum(i + 1, lambda q: x[q, k], lo=i - N + 1)
    return S.array_of((L,), np.int32, lambda q: S.ite(S.and_(q + N // 2 >= N, q + N // 2 < L),
                                                      lambda: S.argmin(A, lambda k: win(q + N // 2, k)), lambda: 0))


def dist_fn(S, E, ang, symbs):
    """squared distance of the rotated sample to the alphabet"""
    M = S.shape(symbs)[0]
    p = S.shape(ang)[0]

    def d(q, a):
        ph = S.ite(p > 1, lambda: ang[q, a], lambda: ang[0, a])
        r = S.complex(S.cos(ph), S.sin(ph))
        return S.min(M, lambda j: S.abs2(E[q] * r - symbs[j]))
    return d


def spec_bps(S, E, ang, symbs, N):
    L, A = S.shape(E)[0], S.shape(ang)[1]
    d = dist_fn(S, E, ang, symbs)
    win = lambda n, k: S.sum(n + N + 1, lambda q: d(q, k), lo=n - N + 1)
    return S.array_of((L,), np.int32, lambda n: S.ite(S.and_(n >= N, n < L - N), lambda: S.argmin(A, lambda k: win(n, k)), lambda: 0))


def spec_select_angles(S, ang, idx):
    L, p = S.shape(idx)[0], S.shape(ang)[0]
    return S.array_of((L,), S.dtype(ang), lambda q: S.ite(p > 1, lambda: ang[q, idx[q]], lambda: ang[0, idx[q]]))


def spec_llr(S, rx, num, snr, bm):
    N, K = S.shape(rx)[0], S.shape(bm)[1]
    like = lambda n, b, v: S.sum(K, lambda k: S.exp(-snr * S.abs2(bm[b, k, v] - rx[n])))
    return S.array_of((N, num), np.float64, lambda n, b: S.fn(np.log, like(n, b, 1)) - S.fn(np.log, like(n, b, 0)))


def spec_llr_minmax(S, rx, num, snr, bm):
    N, K = S.shape(rx)[0], S.shape(bm)[1]
    dmin = lambda n, b, v: S.min(K, lambda k: S.abs2(bm[b, k, v] - rx[n]))
    return S.array_of((N, num), np.float64, lambda n, b: snr * (dmin(n, b, 0) - dmin(n, b, 1)))


def spec_estimate_snr(S, rx, tx, alpha):
    N, L = S.shape(alpha)[0], S.shape(rx)[0]
    ind = lambda i, l: S.eq(tx[l], alpha[i])
    cnt = lambda i: S.count(L, lambda l: ind(i, l))
    mu = lambda i: S.sum(L, lambda l: S.ite(ind(i, l), lambda: rx[l], lambda: 0.)) / cnt(i)
    sent = lambda i: cnt(i) > 0
    var = lambda i: S.sum(L, lambda l: S.ite(ind(i, l), lambda: S.abs2(rx[l] - mu(i)), lambda: 0.)) / cnt(i)
    s0 = S.sum(N, lambda i: S.ite(sent(i), lambda: S.abs2(mu(i)) * cnt(i) / L, lambda: 0.))
    n0 = S.sum(N, lambda i: S.ite(sent(i), lambda: var(i) * cnt(i) / L, lambda: 0.))
    return s0 / n0, s0, n0


def spec_mi_fast(S, rx, tx, symbs, N0):
    M, L = S.shape(symbs)[0], S.shape(rx)[0]
    pen = lambda l: S.log2(S.sum(M, lambda j: S.exp(-(S.abs2(rx[l] - symbs[j]) - S.abs2(rx[l] - tx[l])) / N0)))
    return S.log2(M) - S.sum(L, pen) / L


def spec_mi_mc(S, noise, symbs, N0):
    M, L = S.shape(symbs)[0], S.shape(noise)[0]
    pen = lambda i, l: S.log2(S.sum(M, lambda j: S.exp(-(S.abs2(symbs[i] - symbs[j]) + 2 * S.re((symbs[i] - symbs[j]) * noise[l])) / N0)))
    return S.log2(M) - S.sum(M, lambda i: S.sum(L, lambda l: pen(i, l))) / M / L


def spec_make_decision(S, E, symbs):
    L, M = S.shape(E)[0], S.shape(symbs)[0]
    d = lambda q, i: S.abs(E[q] - symbs[i])
    am = lambda q: S.argmin(M, lambda i: d(q, i))
    return (S.array_of((L,), S.dtype(E), lambda q: symbs[am(q)]), S.array_of((L,), np.float64, lambda q: S.min(M, lambda i: d(q, i))),
            S.array_of((L,), np.int64, am))
