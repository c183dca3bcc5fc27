import warnings
import numpy as np
from pyvc.spec import contract
import qampy.signals as sg
from specs.common import *

DT = [np.complex128, np.complex64]
W = sg.SignalWithPilots


def is_pilot(S, n, seq, rat):
    """the first seq positions, then every rat-th (rat 0 or None: only the sequence)"""
    if rat is None:
        return n < seq
    return S.ite(S.eq(rat, 0), lambda: n < seq, lambda: S.or_(n < seq, S.eq((n - seq) % S.imax(rat, 1), 0)))


def frame(S, rat="positive"):
    r = None if rat is None else 0 if rat == "zero" else S.int('ins_rat', 1, cmax=6)
    seq = S.int('seq_len', 0, cmax=6)
    blocks = S.int('blocks', 0, cmax=5)
    F = seq + blocks * (r if r is not None and not isinstance(r, int) or r else 1)
    S.require(F >= 1)
    return F, seq, r


@contract("C10", cases=[dict(rat=r) for r in ("positive", "zero", None)])
def pilot_positions(S, rat):
    F, seq, r = frame(S, rat)
    ix, dat, pil = S.call(W._cal_pilot_idx, F, seq, r)
    S.ensure_array("pilot positions", pil, (F,), lambda n: is_pilot(S, n, seq, r), dtype=bool)
    S.ensure_array("payload positions are the others", dat, (F,), lambda n: S.not_(is_pilot(S, n, seq, r)), dtype=bool)


@contract("C10")
def pilot_positions_invalid(S):
    F, seq, r = S.int('F', 1, cmax=30), S.int('seq_len', 0, cmax=6), S.int('ins_rat', 1, cmax=6)
    S.require(S.and_(seq <= F, S.not_(S.eq((F - seq) % r, 0))))
    v = S.attempt(W._cal_pilot_idx, F, seq, r)
    S.ensure("a frame that cannot be divided is refused", getattr(v, "name", "") == "ValueError")


def layout(S, rat="positive"):
    """a frame: its length, its arguments, membership of positions in the pilots, and the order within the frame: number of
    pilots / payload symbols before a position.  In the proof the set of pilot positions is arbitrary: the layout of the frame
    is right whatever the positions are; which they are is shown by pilot_positions"""
    if S.symbolic:
        F, seq, r = S.int('F', 1), S.int('seq_len', 0), S.int('ins_rat', 1)
        g = S.ghost('pilot', 1, 'b')
        pil = lambda n: g(n)

        def masks(S, *a):
            return (S.array_of((F,), int, lambda n: n), S.array_of((F,), bool, lambda n: S.not_(g(n))), S.array_of((F,), bool, lambda n: g(n)))
        S.by_contract(W._cal_pilot_idx, masks, "pilot_positions")
    else:
        F, seq, r = frame(S, rat)
        pil = lambda n: is_pilot(S, n, seq, r)
    dat = lambda n: S.not_(pil(n))
    c = lambda n, f: S.toint(S.count(n, f))
    P, D = c(F, pil), c(F, dat)
    S.require(S.and_(P > 0, D > 0))
    return F, seq, r, pil, dat, (lambda n: c(n, pil)), (lambda n: c(n, dat)), P, D


def source(S, name, nm, n, dt, M=16, gen=None):
    return qam_signal(S, name, (nm, n), dt, None, M=M, gen=gen)


def qpsk(rng, shape):
    return np.exp(1j * np.pi / 4) * 1j ** rng.integers(0, 4, shape)


@contract("C10", cases=[dict(dt=d, data=a, pilots=b) for d in DT for a in ("repeated", "new") for b in ("repeated", "new") if d == np.complex128 or a == b], timeout=150.)
def layout_of_new_signal(S, dt, data, pilots):
    F, seq, r, pil, dat, np_, nd, P, D = layout(S)
    nf, nm = S.int('nframes', 1, cmax=3), S.int('nmodes', 1, cmax=2)
    scale = S.real('scale', .1, crange=(.2, 3))
    if S.symbolic:
        np_of = P if pilots == "repeated" else None
        made = []

        def make(S, M, N, nmodes=1, dtype=None, **kw):
            a = source(S, 'pilots' if not made else 'payload', nmodes, N, dtype, M)
            made.append(a)
            return a
        S.by_contract(sg.SignalQAMGrayCoded, make, "C01 new_signal")
        o = S.call(W, 16, F, seq, r, nframes=nf, pilot_scale=scale, Mpilots=4, nmodes=nm, dtype=dt, repeat_data=data == "repeated", repeat_pilots=pilots == "repeated")
        pl, da = made[-2:] if len(made) > 1 else made
        pv, dv = (lambda m, k: S.initial(pl)[m, k] * scale), (lambda m, k: S.initial(da)[m, k])
    else:
        seeds = [int(q) for q in S.rng.integers(0, 1000, 2)]
        o = S.call(W, 16, F, seq, r, nframes=nf, pilot_scale=scale, Mpilots=4, nmodes=nm, dtype=dt, repeat_data=data == "repeated", repeat_pilots=pilots == "repeated")
        pl, da = np.array(o.pilots), np.array(o.symbols)
        pv, dv = (lambda m, k: pl[m, k]), (lambda m, k: da[m, k])
        a4 = np.array([1, 1j, -1, -1j]) * np.exp(1j * np.pi / 4)
        S.ensure("pilots are scaled constellation points", abs(pl.ravel()[:, None] - scale * a4[None]).min(axis=1).max() < 1e-5)
        S.ensure("sent pilots", pl.shape == (nm, P * nf) and da.shape == (nm, D * nf))
        for a, n, rep in ((pl, P, pilots), (da, D, data)):
            if rep == "repeated":
                S.ensure("repeated in every frame", all(np.array_equal(a[:, :n], a[:, k * n:(k + 1) * n]) for k in range(nf)))
    f, x = (lambda q: q // F), (lambda q: q % F)
    pk = (lambda q: np_(x(q))) if pilots == "repeated" and S.symbolic else (lambda q: f(q) * P + np_(x(q)))
    dk = (lambda q: nd(x(q))) if data == "repeated" and S.symbolic else (lambda q: f(q) * D + nd(x(q)))
    S.ensure_array("pilots and payload in order at their positions", o, (nm, F * nf),
                   lambda m, q: S.ite(pil(x(q)), lambda: pv(m, pk(q)), lambda: dv(m, dk(q))), dtype=dt)
    S.ensure_array("advertised pilots", S.attr(o, 'pilots'), (nm, P * nf),
                   lambda m, k: pv(m, k % P if pilots == "repeated" and S.symbolic else k))
    S.ensure_array("advertised payload", S.attr(o, 'symbols'), (nm, D * nf), lambda m, k: dv(m, k % D if data == "repeated" and S.symbolic else k))
    S.ensure_array("sequence", S.attr(o, 'pilot_seq'), (nm, S.imin(seq, P * nf)), lambda m, k: pv(m, k % P if pilots == "repeated" and S.symbolic else k))


def pilot_signal(S, name, lay, nm, n, dt, nd=None, npil=None):
    """a received pilot signal in an arbitrary state: any samples; advertised symbols and pilots of its own"""
    F, seq, r, pil, dat, np_, ndat, P, D = lay
    at = dict(_frame_len=F, _pilot_seq_len=seq, _pilot_ins_rat=r, _pilot_scale=1., _shiftfctrs=None, _synctaps=None, _foe=None, _nframes=None, _fs=1., _fb=1., _M=16,
              _symbols=source(S, name + '_sent', nm, D, dt), _pilots=source(S, name + '_pilots', nm, P, dt, 4),
              _idx_dat=S.array_of((F,), bool, dat), _idx_pil=S.array_of((F,), bool, pil))
    return S.array(name, (nm, n), dt, cls=W, attrs=at)


@contract("C10", cases=[dict(what=w, frames=f) for w in ("data", "pilots") for f in ("all", "first", "last", "two")])
def extraction(S, what, frames):
    """exactly the positions of the payload (the pilots) in the frames asked for, in their order; shape (modes, n), own storage"""
    lay = layout(S)
    F, seq, r, pil, dat, np_, nd, P, D = lay
    nm, nf, rest = S.int('nmodes', 1, cmax=2), S.int('nframes', 1, cmax=4), S.int('rest', 0, cmax=5)
    S.require(rest < F)
    x = pilot_signal(S, 'x', lay, nm, F * nf + rest, np.complex128)
    f0 = S.int('f0', 0, cmax=3)
    S.require(f0 < nf)
    sel = {"all": None, "first": 0, "last": nf - 1}.get(frames, 0)
    if frames == "two":
        S.require(f0 + 1 < nf)
        sel = S.array_of((2,), int, lambda k: f0 + k)
    o = S.call(W.get_data if what == "data" else W.extract_pilots, x, sel) if sel is not None else S.call(W.get_data if what == "data" else W.extract_pilots, x)
    first = {"all": 0, "first": 0, "last": nf - 1}.get(frames, f0)
    nsel = {"all": nf, "two": 2}.get(frames, 1)
    per, rank, memb = (D, nd, dat) if what == "data" else (P, np_, pil)
    S.ensure("class", S.cls(o) is sg.SignalQAMGrayCoded)
    S.ensure_eq("modes", S.shape(o)[0], nm)
    if what == "pilots" or not S.symbolic:
        S.ensure_eq("number of symbols", S.shape(o)[1], per * nsel)
        S.forall((nm, nsel, F), lambda m, f, n: S.ensure("symbol at its place", S.implies(memb(n), lambda: S.eq(S.elem(o, m, f * per + rank(n)), S.initial(x)[m, (first + f) * F + n]))))
    if what == "data":
        S.lemma("whole frames", S.eq((F * nf + rest) // F, nf))
        within = lambda q, f: S.and_(q >= f * F, q < (f + 1) * F, memb(q - f * F))
        wanted = (lambda q: S.and_(q // F < nf, memb(q - F * (q // F)))) if frames == "all" else (lambda q: S.or_(*[within(q, first + k) for k in range(nsel)]))
        rk = lambda q: S.toint(S.count(q, wanted))
        S.ensure_eq("number of wanted positions", S.shape(o)[1], rk(F * nf + rest))
        S.forall((nm, F * nf + rest), lambda m, q: S.ensure("in order", S.implies(wanted(q), lambda: S.eq(S.elem(o, m, rk(q)), S.initial(x)[m, q]))))
    S.ensure_fresh("own storage", o, x)
    S.ensure_unchanged("signal", x)


@contract("C10", cases=[dict(pmodes=p, idx=i) for p in ("all", "one") for i in (False, True)])
def layout_of_given_symbols(S, pmodes, idx):
    """given payload and pilots: payload truncated to the frame, pilots and payload in order at their positions, frames repeated"""
    if idx and not S.symbolic:
        F = S.int('F', 1, cmax=12)
        mask = S.array('mask', (F,), bool)
        pil = lambda n: bool(mask[int(n)])
        dat = lambda n: not pil(n)
        c = lambda n, f: S.toint(S.count(n, f))
        np_, nd, P, D, seq, r = (lambda n: c(n, pil)), (lambda n: c(n, dat)), c(F, pil), c(F, dat), 1, 1
        S.require(P > 0 and D > 0)
    else:
        F, seq, r, pil, dat, np_, nd, P, D = layout(S)
        mask = S.array_of((F,), bool, pil) if idx else None
    nm, nf, extra = S.int('nmodes', 1, cmax=2), S.int('nframes', 1, cmax=3), S.int('extra', 0, cmax=4)
    pm = nm if pmodes == "all" else 1
    pay, pl = source(S, 'payload', nm, D + extra, np.complex128), source(S, 'pilots', pm, P, np.complex128, 4, qpsk)
    kw = dict(pilots=pl, nframes=nf)
    if idx:
        kw['pilot_idx'] = mask if S.symbolic else np.flatnonzero(mask)
    if S.symbolic:
        def make(S, cls, symbs, **kw):
            n, L = S.shape(symbs)
            return S.array_of((n, L), S.dtype(symbs), lambda m, k: symbs[m, k]).as_cls(sg.SignalQAMGrayCoded, dict(_M=4, _fs=1., _fb=1., _bits=None, _encoding=None, _bitmap_mtx=None, _code=None, _symbols=None, _coded_symbols=None))
        S.by_contract(sg.SignalQAMGrayCoded.__dict__['from_symbol_array'].__func__, make, "C01 generation (bounded), for constellation points")
    o = S.call(W.from_symbol_array, pay, F, seq, r, **kw)
    S.ensure("class of the pilots", S.cls(S.attr(o, 'pilots')) is sg.SignalQAMGrayCoded)
    row = lambda m: m if pmodes == "all" else 0
    S.ensure_array("pilots and payload in order at their positions", o, (nm, F * nf),
                   lambda m, q: S.ite(pil(q % F), lambda: S.initial(pl)[row(m), np_(q % F)], lambda: S.initial(pay)[m, nd(q % F)]), dtype=np.complex128)
    S.ensure_array("advertised payload", S.attr(o, 'symbols'), (nm, D), lambda m, k: S.initial(pay)[m, k])
    S.ensure("class of the payload", S.cls(S.attr(o, 'symbols')) is sg.SignalQAMGrayCoded)
    S.ensure_array("advertised pilots", S.attr(o, 'pilots'), (nm, P), lambda m, k: S.initial(pl)[row(m), k])
    S.ensure_array("payload positions", S.attr(o, '_idx_dat'), (F,), lambda n: S.not_(pil(n)), dtype=bool)
    S.ensure_array("pilot positions", S.attr(o, '_idx_pil'), (F,), lambda n: pil(n), dtype=bool)
    S.ensure_unchanged("payload", pay)
    S.ensure_unchanged("pilots", pl)


@contract("C10", kind="bounded", trials=25, thorough=300)
def frames_through_the_public_api(S):
    """signals of every construction: what is extracted is what was sent; refused partitions; no state shared between calls"""
    rng = S.rng
    rat = [None, 0, 1, 2, 4, 8][int(rng.integers(6))]
    seq = int(rng.integers(4 if rat in (None, 0) else 0, 9))
    blocks = int(rng.integers(2, 9))
    F = seq + blocks * (rat or 1)
    pos = np.array([n < seq or (rat not in (None, 0) and (n - seq) % rat == 0) for n in range(F)])
    nm, nf, M = int(rng.integers(1, 3)), int(rng.integers(1, 5)), int(rng.choice([4, 16, 64]))
    S.require(0 < pos.sum() < F)
    rd, rp = bool(rng.integers(2)), bool(rng.integers(2))
    s = W(M, F, seq, rat, nframes=nf, nmodes=nm, repeat_data=rd, repeat_pilots=rp, pilot_scale=float(rng.uniform(.3, 2)), dtype=DT[int(rng.integers(2))])
    a = np.array(s)
    S.ensure("shape", a.shape == (nm, F * nf))
    full = np.tile(pos, nf)
    S.ensure("pilots in order", np.array_equal(a[:, full], np.array(s.pilots)) and np.array_equal(a[:, ~full], np.array(s.symbols)))
    S.ensure("all of the payload", np.array_equal(np.array(s.get_data()), np.array(s.symbols)))
    S.ensure("all of the pilots", np.array_equal(np.array(s.extract_pilots()), np.array(s.pilots)))
    k = int(rng.integers(nf))
    one = np.zeros(F * nf, bool)
    one[k * F:(k + 1) * F] = True
    for f in (k, [k], np.array([k])):
        S.ensure("payload of one frame", np.array_equal(np.array(s.get_data(f)), a[:, one & ~full]))
        S.ensure("pilots of one frame", np.array_equal(np.array(s.extract_pilots(f)), a[:, one & full]))
    S.ensure("extraction leaves the signal", np.array_equal(np.array(s), a))
    S.ensure("masks", np.array_equal(s.idx_pilots, full) and np.array_equal(s.idx_payload, ~full))
    S.ensure("frames", s.nframes == nf and s.frame_len == F)
    if nf > 1:
        sub = sorted(int(q) for q in rng.choice(nf, int(rng.integers(1, nf + 1)), replace=False))
        S.ensure("payload of a set of frames", np.array_equal(np.array(s.get_data(sub)), np.concatenate([a[:, q * F:(q + 1) * F][:, ~pos] for q in sub], axis=1)))
        S.ensure("pilots of a set of frames", np.array_equal(np.array(s.extract_pilots(sub)), np.concatenate([a[:, q * F:(q + 1) * F][:, pos] for q in sub], axis=1)))
        cut = s[:, :F * (nf - 1) + int(rng.integers(0, F))]
        S.ensure("whole frames of a cut signal", np.array_equal(np.array(cut.get_data()), a[:, :F * (nf - 1)][:, np.tile(~pos, nf - 1)]))
    if rat not in (None, 0) and rat > 1:
        v = S.attempt(W, M, F + 1, seq, rat)
        S.ensure("refused", getattr(v, "name", "") == "ValueError")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        frame_ = np.zeros((nm, F), complex)
        full_alphabet = np.array(sg.SignalQAMGrayCoded(M, 2).coded_symbols)
        pl, da = qpsk(rng, (nm, int(pos.sum()))), full_alphabet[rng.integers(0, M, (nm, int((~pos).sum())))]
        da[0, :min(M, da.shape[1])] = full_alphabet[:da.shape[1]]
        if da.size >= M and len(np.unique(da)) == M:
            frame_[:, pos], frame_[:, ~pos] = pl, da
            for again in range(2):
                o = W.from_symbol_array(frame_, F, seq, rat, nframes=nf, payload_is_frame=True, payload_kwargs={"M": M})
                S.ensure("given frame", np.allclose(np.array(o), np.tile(frame_, nf), atol=1e-6))
                S.ensure("given frame, payload", np.allclose(np.array(o.symbols), da, atol=1e-6) and np.allclose(np.array(o.pilots), pl, atol=1e-6))
            for MM in (M, 4 if M > 4 else 16):
                o = W.from_symbol_array(da, F, seq, rat, nframes=nf, M=M) if MM == M else W.from_symbol_array(qpsk(rng, da.shape), F, seq, rat, M=4)
                S.ensure("order of the payload", o.M == (M if MM == M else 4))
