import numpy as np
from pyvc.spec import contract
import qampy.core.phaserecovery as pr
import qampy.core.pilotbased_receiver as pb
import qampy.core.filter as cf
import qampy.phaserec as ap
import qampy.signals as sg
from specs.common import *
from specs.c10 import layout, pilot_signal

DTS = [dict(dt=np.complex128), dict(dt=np.complex64)]


def rot(S, p):
    """unit phasor of angle -p"""
    return S.complex(S.cos(p), -S.sin(p))


# ------------------------------------------------------------------------------------------- frequency offset
@contract("C19", cases=[dict(dt=d, nd=n) for d in (np.complex128, np.complex64) for n in (1, 2)])
def comp_freq_offset(S, dt, nd):
    """sample n of mode m times the unit phasor of angle -2 pi (n+1) f[m]/os"""
    L, nm, os_ = S.int('L', 1, cmax=30), S.int('nm', 1, cmax=3) if nd == 2 else 1, S.int('os', 1, cmax=4)
    x = S.array('x', (nm, L) if nd == 2 else (L,), dt)
    f = S.array('f', (nm, 1), float)
    r = S.call(pr.comp_freq_offset, x, f, os_)
    w = lambda m, n: rot(S, 2 * S.pi() * (n + 1) * f[m, 0] / os_)
    S.ensure_array("rotated by the reported frequency", r, (nm, L) if nd == 2 else (L,),
                   (lambda m, n: x[m, n] * w(m, n)) if nd == 2 else (lambda n: x[n] * w(0, n)), dtype=dt)
    S.forall((nm, L), lambda m, n: S.ensure_eq("magnitude kept", S.abs2(S.elem(r, m, n) if nd == 2 else S.elem(r, n)), S.abs2(x[m, n] if nd == 2 else x[n])))
    S.ensure_unchanged("signal", x)
    S.ensure_unchanged("offsets", f)


@contract("C19")
def comp_freq_offset_of_a_signal(S):
    """the signal-level function works with the offset in Hz relative to the sampling rate, and returns a signal"""
    L, nm = S.int('L', 1, cmax=30), S.int('nm', 1, cmax=3)
    os_ = S.int('os', 1, cmax=4)
    fb = S.real('fb', .1, crange=(1, 4)) if S.symbolic else 2. ** int(S.rng.integers(-2, 3))
    fs = os_ * fb
    x = qam_signal(S, 'x', (nm, L), np.complex128, None, M=16, fs=fs, fb=fb)
    f = S.array('f', (nm, 1), float)
    r = S.call(ap.comp_freq_offset, x, f)
    S.ensure_array("rotated by the reported frequency", r, (nm, L), lambda m, n: S.initial(x)[m, n] * rot(S, 2 * S.pi() * (n + 1) * f[m, 0] / os_))
    S.ensure("class", S.cls(r) is sg.SignalQAMGrayCoded)


# ------------------------------------------------------------------------------------------- Viterbi-Viterbi
@contract("C19", cases=[dict(nd=n, M=m, odd=o) for n in (1, 2) for m in (4, 8) for o in (True, False) if n == 1 or m == 4])
def viterbiviterbi(S, nd, M, odd):
    L, nm, N = S.int('L', 1, cmax=30), S.int('nm', 1, cmax=3) if nd == 2 else 1, 2 * S.int('h', 0 if odd else 1, cmax=5) + (1 if odd else 0)
    S.require(N <= L)
    x = S.array('x', (nm, L) if nd == 2 else (L,), np.complex128)
    X = (lambda m, n: x[m, n]) if nd == 2 else (lambda m, n: x[n])
    r, ph = S.call(pr.viterbiviterbi, x, N, M)
    n0 = (N - 1) // 2
    W = L - N + 1
    ang = lambda m, k: S.fn(np.angle, S.sum(N, lambda q: S.exp(S.complex(0., S.fn(np.angle, X(m, k + q)))) ** M))
    phase = lambda m, n: (S.unwrap(n, lambda k: ang(m, k)) - S.pi()) / M
    PH = (lambda m, n: S.elem(ph, m, n)) if nd == 2 else (lambda m, n: S.elem(ph, n))
    S.ensure_array("phase of every mode", ph, (nm, W) if nd == 2 else (W,), (lambda m, n: phase(m, n)) if nd == 2 else (lambda n: phase(0, n)))
    val = lambda m, n: S.ite(S.and_(n >= n0, n < n0 + W), lambda: X(m, n) * rot(S, PH(m, n - n0)), lambda: 0)
    S.ensure_array("rotated by the reported phase", r, (nm, L) if nd == 2 else (L,), (lambda m, n: val(m, n)) if nd == 2 else (lambda n: val(0, n)))
    S.ensure_unchanged("signal", x)


# ------------------------------------------------------------------------------------------- pilots
def turn(S, rx, ref):
    """phase of the received pilot relative to the sent one"""
    return S.fn(np.angle, S.conj(ref) * rx)


def one_pilot_set(S, name, nm, n):
    return S.array('rx' + name, (nm, n), np.complex128), S.array('ref' + name, (nm, n), np.complex128)


@contract("C19")
def pilot_const_phase(S):
    """mean of the unwrapped phases of the pilots of the mode; correcting multiplies the mode by the unit phasor of minus it"""
    nm, n, L = S.int('nm', 1, cmax=3), S.int('n', 1, cmax=12), S.int('L', 1, cmax=12)
    rx, ref = one_pilot_set(S, '', nm, n)
    r = S.call(ap.find_pilot_const_phase, rx, ref)
    S.ensure_array("mean phase of the pilots of the mode", r, (nm, 1), lambda m, z: S.mean(n, lambda k: S.unwrap(k, lambda q: turn(S, rx[m, q], ref[m, q]))))
    x, ph = S.array('x', (nm, L), np.complex128), S.array('ph', (nm, 1), float)
    o = S.call(ap.correct_pilot_const_phase, x, ph)
    S.ensure_array("turned back by the phase of the mode", o, (nm, L), lambda m, k: x[m, k] * rot(S, ph[m, 0]))
    for a in (rx, ref, x, ph):
        S.ensure_unchanged("input", a)


def slope(S, n, y):
    """slope of the least-squares line through (k, y(k)), k below n"""
    mk, my = S.mean(n, lambda k: k), S.mean(n, y)
    return S.sum(n, lambda k: (k - mk) * (y(k) - my)) / S.sum(n, lambda k: (k - mk) ** 2)


@contract("C19")
def pilot_frequency(S):
    """per mode: slope of the least-squares line through the unwrapped pilot phases in turns per symbol; the average over the modes"""
    nm, n = S.int('nm', 1, cmax=3), S.int('n', 2, cmax=12)
    rx, ref = one_pilot_set(S, '', nm, n)
    foe, per, cond = S.call(pb.pilot_based_foe, rx, ref)
    f = lambda m: slope(S, n, lambda k: S.unwrap(k, lambda q: turn(S, rx[m, q], ref[m, q]))) / (2 * S.pi())
    S.ensure_array("frequency of the mode from its own pilots", per, (nm, 1), lambda m, z: f(m))
    S.ensure_eq("average over the modes", foe, S.mean(nm, f))
    for a in (rx, ref):
        S.ensure_unchanged("input", a)


def spec_moving_average(S, a, N=3):
    m, l = S.shape(a)
    S.ensure("window fits", N <= l)
    return S.array_of((m, l - N + 1), S.dtype(a), lambda k, f: S.sum(f + N, lambda q: a[k, q], lo=f) / N)


@contract("C19", cases=[dict(odd=o, blocks=b) for o in (True, False) for b in (None, "some")])
def pilot_phase_recovery(S, odd, blocks):
    """phase between pilots interpolated linearly through the moving averages of the unwrapped pilot phases of the mode (constant
    outside), only the chosen pilots used; the output is the input turned by minus that phase"""
    nm, nf, F, P, u = S.int('nm', 1, cmax=2), S.int('nframes', 1, cmax=3), S.int('F', 1, cmax=25), S.int('P', 1, cmax=8), S.int('ratio', 1, cmax=3)
    h = S.int('h', 1, cmax=3)
    N = 2 * h + 1
    rest = S.int('rest', 0, cmax=9)
    mb = None if blocks is None else S.int('blocks', 1, cmax=8)
    if mb is not None:
        S.require(mb <= P)
    if S.symbolic:
        pos = S.array('pos', (P,), int)
        S.assume_forall((P,), lambda k: S.and_(pos[k] >= 0, pos[k] < F))
        S.assume_forall((P, P), lambda j, k: S.implies(j < k, pos[j] < pos[k]))
    else:
        S.require(P <= F)
        pos = np.sort(S.rng.choice(F, P, replace=False))
    c = ((P if mb is None else mb) + u - 1) // u
    S.require(c * nf >= N)
    x, ref = S.array('x', (nm, F * nf + rest), np.complex128), S.array('ref', (nm, P), np.complex128)
    S.by_contract(cf.moving_average, spec_moving_average, "C15 moving_average")
    o, ph = S.call(pb.pilot_based_cpe_new, x, ref, pos, F, num_average=N if odd else N - 1, use_pilot_ratio=u, max_num_blocks=mb, nframes=nf)
    at = lambda k: (k // c) * F + pos[(k % c) * u]
    pp = lambda m, k: S.unwrap(k, lambda q: turn(S, x[m, at(q)], ref[m, (q % c) * u]))
    avg = lambda m, k: S.sum(k + N, lambda q: pp(m, q), lo=k) / N
    trace = lambda m, n: S.interp(n, c * nf - N + 1, lambda k: at(k + h), lambda k: avg(m, k))
    S.ensure_array("interpolated between the averaged pilot phases of the mode", ph, (nm, F * nf), lambda m, n: trace(m, n))
    S.ensure_array("turned back by the reported phase", o, (nm, F * nf), lambda m, n: x[m, n] * rot(S, S.re(S.elem(ph, m, n))))
    for a in (x, ref):
        S.ensure_unchanged("input", a)


@contract("C19", cases=[dict(use_seq=q, blocks=b) for q in (False, True) for b in (None, "some")])
def pilot_phase_recovery_of_a_pilot_signal(S, use_seq, blocks):
    """positions and reference values of the phase pilots (with use_seq: of all pilots) of the frame are the ones used, in order; the
    result is a pilot signal turned back by the reported phase"""
    lay = layout(S)
    F, seq, r, pil, dat, np_, nd, P, D = lay
    nm, nf, h = S.int('nm', 1, cmax=2), S.int('nf', 1, cmax=3), S.int('h', 1, cmax=2)
    n0 = 0 if use_seq else seq
    S.require(P > n0)
    mb = None if blocks is None else S.int('blocks', 1, cmax=8)
    if mb is not None:
        S.require(mb <= P - n0)
    used = P - n0 if mb is None else mb
    S.require(used * nf >= 2 * h + 1)
    x = pilot_signal(S, 'x', lay, nm, F * nf, np.complex128)
    pl = S.attr(x, '_pilots')
    if S.symbolic:
        tr = S.array('tr', (nm, F * nf), np.complex128)
        seen = []

        def core(S, sig, pilots, idx, flen, seq_len=None, num_average=1, use_pilot_ratio=1, max_num_blocks=None, nframes=1):
            seen.append(1)
            S.ensure_eq("number of reference values", S.shape(pilots)[1], P - n0)
            S.ensure_eq("number of positions", S.shape(idx)[0], P - n0)
            S.forall((P - n0,), lambda k: S.ensure("positions of the pilots in order", S.and_(pil(S.elem(idx, k)), S.eq(np_(S.elem(idx, k)), k + n0))))
            S.forall((nm, P - n0), lambda m, k: S.ensure_eq("reference value of the pilot", S.elem(pilots, m, k), S.initial(pl)[m, n0 + k]))
            S.ensure("rest of the arguments", S.and_(S.eq(flen, F), S.eq(num_average, 2 * h + 1), S.eq(use_pilot_ratio, 1), S.eq(nframes, nf),
                                                     max_num_blocks is None if mb is None else S.eq(max_num_blocks, mb)))
            return S.array_of((nm, F * nf), np.complex128, lambda m, n: sig[m, n] * rot(S, S.re(tr[m, n]))), tr
        S.by_contract(pb.pilot_based_cpe_new, core, "pilot_phase_recovery")
    o, ph = S.call(ap.pilot_cpe, x, 2 * h + 1, 1, mb, nf, use_seq)
    if S.symbolic:
        S.ensure("recovered through the core function", len(seen) == 1)
    else:
        pos = np.array([n for n in range(F) if pil(n)])[n0:][:mb]
        at = np.concatenate([pos + k * F for k in range(nf)])
        rf = np.tile(np.asarray(S.initial(pl))[:, n0:][:, :mb], nf)
        xi = np.asarray(S.initial(x))
        for m in range(nm):
            q = np.unwrap(np.angle(np.conj(rf[m]) * xi[m, at]))
            av = np.array([q[k:k + 2 * h + 1].mean() for k in range(len(q) - 2 * h)])
            S.ensure_array("phase of the mode", ph[m], (F * nf,), lambda n: np.interp(n, at[h:-h], av))
    S.ensure_array("turned back by the reported phase", o, (nm, F * nf), lambda m, n: S.initial(x)[m, n] * rot(S, S.re(S.elem(ph, m, n))))
    S.ensure("class", S.cls(o) is sg.SignalWithPilots)
    S.ensure_eq("sequence", S.attr(o, '_pilot_seq_len'), seq)
    S.ensure_unchanged("signal", x)
    S.ensure_unchanged("pilots", pl)


@contract("C19", cases=[dict(keep=k, u=u) for k in (True, False) for u in (1, 2)])
def block_pilot_phase_recovery(S, keep, u):
    """one pilot at the start of each block: phase at the pilots = moving average (first pilots: the phase itself; last: the last
    average), between pilots linear; output is the input turned back by that phase, with or without the pilots"""
    nm, R, h = S.int('nm', 1, cmax=3), S.int('R', 2, cmax=5), S.int('h', 1, cmax=2)
    N = 2 * h + 1
    c = S.int('used', 1, cmax=12)
    B = c * u
    S.require(c > N)
    x, ref = S.array('x', (nm, R * B), np.complex128), S.array('ref', (nm, B), np.complex128)
    S.by_contract(cf.moving_average, spec_moving_average, "C15 moving_average")
    o, ph = S.call(pb.pilot_based_cpe, x, ref, R, num_average=N, use_pilot_ratio=u, remove_phase_pilots=not keep)
    base = lambda m, k: S.unwrap(k, lambda q: turn(S, x[m, q * R * u], ref[m, q * u]))
    avg = lambda m, k: S.sum(k + N, lambda q: base(m, q), lo=k) / N
    at_pilot = lambda m, k: S.ite(k < h, lambda: base(m, k), lambda: S.ite(k < c - h, lambda: avg(m, k - h), lambda: avg(m, c - N)))
    S.ensure_array("interpolated between the pilots of the mode", ph, (nm, R * B), lambda m, n: S.interp(n, c, lambda k: k * R * u, lambda k: at_pilot(m, k)))
    val = lambda m, n: x[m, n] * rot(S, S.elem(ph, m, n))
    if keep:
        S.ensure_array("turned back by the reported phase", o, (nm, R * B), val)
    else:
        S.ensure_array("turned back by the reported phase", o, (nm, (R - 1) * B), lambda m, n: val(m, (n // (R - 1)) * R + 1 + n % (R - 1)))
    for a in (x, ref):
        S.ensure_unchanged("input", a)


@contract("C19", cases=[dict(nm=n, size=z, average=a) for n, z, a in ((1, 16, False), (2, 16, False), (2, 16, True), (1, 12, True))])
def frequency_search(S, nm, size, average):
    """a quarter of the frequency, in cycles per symbol, at which the spectrum of the fourth power of the mode (padded with zeros or
    cut to the size of the transform, a power of two) is strongest; each mode its own, or the average for all"""
    L, os_ = S.int('L', 1, cmax=40), S.int('os', 1, cmax=4)
    x = S.array('x', (nm, L), np.complex128)
    r = S.call(pr.find_freq_offset, x, os_, average, size)
    N = 16

    def f(m):
        p = S.call(np.fft.fft, S.array_of((N,), np.complex128, lambda k: S.ite(k < L, lambda: x[m, k] ** 4, lambda: S.complex(0., 0.))))
        k = S.argmax(N, lambda q: S.abs(S.abs(S.elem(p, q)) ** 2))
        return S.ite(k < N // 2, lambda: k * os_, lambda: (k - N) * os_) / (4. * N)
    fm = [f(m) for m in range(nm)]
    for m in range(nm):
        S.ensure_eq("frequency of the mode", S.elem(r, m, 0), (sum(fm[1:], fm[0]) / nm) if average else fm[m])
    S.ensure("shape", S.shape(r) == (nm, 1) if not S.symbolic else tuple(int(q) for q in S.shape(r)) == (nm, 1))
    S.ensure_unchanged("signal", x)


@contract("C19", kind="bounded", trials=4, thorough=40)
def through_the_public_api(S):
    """an added frequency offset is undone by its compensation up to a constant phase; the search finds it; Viterbi-Viterbi and pilot-based
    recovery return what they report for each mode and do not mix modes"""
    import qampy.impairments as im
    r = S.rng
    nm, fb = int(r.integers(1, 4)), 25e9
    s = sg.SignalQAMGrayCoded(4, 3000, nmodes=nm, fb=fb, seed=[int(q) for q in r.integers(0, 1000, nm)])
    ov = int(r.integers(1, 3))
    if ov > 1:
        s = s.resample(ov * fb, beta=.3)
    df = float(r.uniform(-1, 1)) * 1e9
    off = im.add_carrier_offset(s, df)
    back = ap.comp_freq_offset(off, np.full((nm, 1), df / fb))
    for m in range(nm):
        q = np.asarray(back[m]) * np.conj(np.asarray(s[m]))
        w = q[abs(s[m]) > 1e-3]
        S.ensure("offset undone up to a constant phase", np.allclose(np.angle(w * np.conj(w[0])), 0, atol=1e-5) and np.allclose(abs(back[m]), abs(s[m])))
    if ov == 1:
        f = ap.find_freq_offset(off, fft_size=2 ** 14)
        S.ensure("offset found", f.shape == (nm, 1) and np.all(abs(f * fb - df) <= fb / 2 ** 14))
        own = [float(q) for q in r.uniform(-.02, .02, nm)]
        n = np.arange(3000)
        d = s.recreate_from_np_array(np.asarray(s) * np.exp(2j * np.pi * np.array(own)[:, None] * n))
        f = ap.find_freq_offset(d, fft_size=2 ** 14)
        S.ensure("offset of each mode found", np.all(abs(f[:, 0] - own) <= 2. / 2 ** 14))
        N = int(r.integers(2, 30))
        ph = np.cumsum(r.normal(0, .01, (nm, 3000)), axis=1) + r.uniform(-.3, .3, (nm, 1))
        d = s.recreate_from_np_array(np.asarray(s) * np.exp(1j * ph))
        o, t = ap.viterbiviterbi(d, N)
        n0, W = (N - 1) // 2, 3000 - N + 1
        S.ensure("Viterbi-Viterbi: shape", o.shape == d.shape and t.shape == (nm, W))
        S.ensure("Viterbi-Viterbi: turned back by what it reports", np.allclose(np.asarray(o)[:, n0:n0 + W], np.asarray(d)[:, n0:n0 + W] * np.exp(-1j * t)))
        for m in range(nm):
            o1, t1 = pr.viterbiviterbi(np.asarray(d)[m], N, 4)
            S.ensure("Viterbi-Viterbi: mode on its own", np.allclose(o1, np.asarray(o)[m]) and np.allclose(t1, t[m]))
            q = np.unwrap(4 * (t[m] - ph[m][n0:n0 + W])) / 4
            S.ensure("Viterbi-Viterbi: follows the phase up to quarter turns", np.ptp(q) < .5 or N > 20)
    P = sg.SignalWithPilots(16, 32 + 16 * 30, 32, 16, nframes=2, nmodes=nm)
    ph = np.cumsum(r.normal(0, .005, P.shape), axis=1) + r.uniform(-1, 1, (nm, 1))
    rx = P.recreate_from_np_array(np.asarray(P) * np.exp(1j * ph))
    N = int(r.integers(1, 4)) * 2 + 1
    o, t = ap.pilot_cpe(rx, N=N, nframes=2)
    S.ensure("pilots: turned back by what it reports", o.shape == P.shape and np.allclose(o, np.asarray(rx) * np.exp(-1j * np.real(t))))
    S.ensure("pilots: follows the phase of the mode", np.abs(np.angle(np.exp(1j * (np.real(t) - ph)))).max() < .5)
    for m in range(nm):
        other = np.array(rx)
        other[[k for k in range(nm) if k != m]] *= 1j
        o1, t1 = ap.pilot_cpe(rx.recreate_from_np_array(other), N=N, nframes=2)
        S.ensure("pilots: estimate of the mode does not depend on the others", np.allclose(t1[m], t[m]))
