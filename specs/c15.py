import numpy as np
from pyvc.spec import contract
import qampy.core.segmentaxis as sa
import qampy.core.utils as ut
import qampy.core.filter as fl
import qampy.filtering as fapi

DT = [dict(dt=np.complex128), dict(dt=np.float64), dict(dt=np.complex64)]


def frames(S, l, length, hop, end):
    """number of frames: cut drops the incomplete one, wrap and pad complete it"""
    full = (l - length) // hop
    if end == 'cut':
        return full + 1
    return S.ite(l <= length, lambda: 1, lambda: S.ite(S.eq((l - length) % hop, 0), lambda: full + 1, lambda: full + 2))


def sample(S, at, l, q, end, endvalue):
    if end == 'cut':
        return at(q)
    if end == 'wrap':
        return at(q % l)
    return S.ite(q < l, lambda: at(q % l), lambda: endvalue)


def setup(S, end):
    l, length, overlap = S.int('l', 1, cmax=24), S.int('length', 1, cmax=7), S.int('overlap', 0, cmax=6)
    S.require(overlap < length)
    if end == 'cut':
        S.require(l >= length)
    return l, length, overlap, length - overlap


@contract("C15", cases=[dict(dt=d, end=e, axis=a) for d in (np.complex128, np.float64) for e in ('cut', 'wrap', 'pad') for a in (None, 0)])
def segment_1d(S, dt, end, axis):
    l, length, overlap, hop = setup(S, end)
    a = S.array('a', (l,), dt)
    ev = S.real('endvalue')
    r = S.call(sa.segment_axis, a, length, overlap, axis, end, ev)
    S.ensure_array("frame", r, (frames(S, l, length, hop, end), length), lambda f, c: sample(S, lambda q: a[q], l, f * hop + c, end, ev))
    S.ensure_unchanged("input unchanged", a)


@contract("C15", cases=[dict(dt=np.complex128, end=e, axis=a) for e in ('cut', 'wrap', 'pad') for a in (0, 1)])
def segment_2d(S, dt, end, axis):
    l, length, overlap, hop = setup(S, end)
    m = S.int('m', 1, cmax=4)
    a = S.array('a', (m, l) if axis == 1 else (l, m), dt)
    ev = S.real('endvalue')
    r = S.call(sa.segment_axis, a, length, overlap, axis, end, ev)
    n = frames(S, l, length, hop, end)
    if axis == 1:
        S.ensure_array("frame", r, (m, n, length), lambda k, f, c: sample(S, lambda q: a[k, q], l, f * hop + c, end, ev))
    else:
        S.ensure_array("frame", r, (n, length, m), lambda f, c, k: sample(S, lambda q: a[q, k], l, f * hop + c, end, ev))
    S.ensure_unchanged("input unchanged", a)


@contract("C15", kind="bounded", trials=40)
def segment_any(S):
    """any number of axes, memory orders and non-contiguous inputs"""
    rng = S.rng
    nd = int(rng.integers(1, 4))
    axis = int(rng.integers(0, nd))
    end = ('cut', 'wrap', 'pad')[int(rng.integers(0, 3))]
    l, length, overlap, hop = setup(S, end)
    shape = [int(x) for x in rng.integers(1, 4, nd)]
    shape[axis] = l
    big = S.array('a', tuple(2 * x for x in shape), np.float64)
    a = big[tuple(slice(None, None, 2) if rng.random() < .5 else slice(0, x) for x in shape)]
    if rng.random() < .5:
        a = np.asfortranarray(a)
    r = S.call(sa.segment_axis, a, length, overlap, axis, end, -7.)
    n = int(frames(S, l, length, hop, end))
    am = np.moveaxis(np.array(a), axis, -1)
    idx = np.arange(n)[:, None] * hop + np.arange(length)
    e = am[..., idx % l]
    if end == 'pad':
        e = np.where(idx < l, e, -7.)
    e = np.moveaxis(np.moveaxis(e, -1, axis), -1, axis) if False else np.moveaxis(e, (-2, -1), (axis, axis + 1))
    S.ensure("frames of any array", r.shape == e.shape and np.array_equal(r, e))
    S.ensure_unchanged("input unchanged", big)


@contract("C15", cases=[dict(dt=d, wrap=w) for d in (np.complex128, np.float64, np.int64) for w in (False, True)])
def rolling_window(S, dt, wrap):
    l, size = S.int('l', 1, cmax=16), S.int('size', 1, cmax=20 if wrap else 6)
    if not wrap:
        S.require(size <= l)
    a = S.array('a', (l,), dt)
    r = S.call(ut.rolling_window, a, size, wrap)
    n = l if wrap else l - size + 1
    S.ensure_array("window", r, (n, size), lambda f, c: a[(f + c) % l] if wrap else a[f + c])
    S.ensure_unchanged("input unchanged", a)


@contract("C15", cases=[dict(dt=np.complex128)])
def rolling_window_rows(S, dt):
    m, l, size = S.int('m', 1, cmax=4), S.int('l', 1, cmax=12), S.int('size', 1, cmax=12)
    S.require(size <= l)
    a = S.array('a', (m, l), dt)
    r = S.call(ut.rolling_window, a, size)
    S.ensure_array("window", r, (m, l - size + 1, size), lambda k, f, c: a[k, f + c])


EVERY_SECOND, COLUMN, BACKWARDS = (Ellipsis, slice(None, None, 2)), (Ellipsis, 1), (Ellipsis, slice(None, None, -1))


@contract("C15", cases=[dict(view=v, wrap=w, dt=d) for v in ("second", "column", "backwards") for w, d in ((False, np.complex128), (True, np.float64))])
def rolling_window_of_a_view(S, view, wrap, dt):
    """windows of data that is not contiguous in memory"""
    l, size = S.int('l', 1, cmax=12), S.int('size', 1, cmax=16 if wrap else 5)
    if not wrap:
        S.require(size <= l)
    if view == "second":
        big, f, at = S.array('a', (2 * l,), dt), EVERY_SECOND, lambda i: big[2 * i]
    elif view == "column":
        big, f, at = S.array('a', (l, 3), dt), COLUMN, lambda i: big[i, 1]
    else:
        big, f, at = S.array('a', (l,), dt), BACKWARDS, lambda i: big[l - 1 - i]
    r = S.call(ut.rolling_window, S.view(big, f), size, wrap)
    n = l if wrap else l - size + 1
    S.ensure_array("window", r, (n, size), lambda f, c: at((f + c) % l) if wrap else at(f + c))
    S.ensure_unchanged("input unchanged", big)


@contract("C15", cases=[dict(view=v, dt=d) for v in ("second", "backwards") for d in (np.complex128, np.float32)])
def moving_average_of_a_view(S, view, dt):
    m, l, N = S.int('m', 1, cmax=4), S.int('l', 1, cmax=12), S.int('N', 1, cmax=8)
    S.require(N <= l)
    if view == "second":
        big, f, at = S.array('a', (m, 2 * l), dt), EVERY_SECOND, lambda k, i: big[k, 2 * i]
    else:
        big, f, at = S.array('a', (m, l), dt), BACKWARDS, lambda k, i: big[k, l - 1 - i]
    r = S.call(fl.moving_average, S.view(big, f), N)
    S.ensure_array("mean of the window", r, (m, l - N + 1), lambda k, f: S.sum(f + N, lambda q: at(k, q), lo=f) / N)
    S.ensure_unchanged("input unchanged", big)


@contract("C15", cases=DT, also=("C19",))
def moving_average(S, dt):
    m, l, N = S.int('m', 1, cmax=4), S.int('l', 1, cmax=16), S.int('N', 1, cmax=8)
    S.require(N <= l)
    a = S.array('a', (m, l), dt)
    r = S.call(fl.moving_average, a, N)
    S.ensure_array("mean of the window", r, (m, l - N + 1), lambda k, f: S.sum(f + N, lambda q: a[k, q], lo=f) / N)
    S.ensure_unchanged("input unchanged", a)


@contract("C15", cases=DT)
def moving_average_1d(S, dt):
    l, N = S.int('l', 1, cmax=16), S.int('N', 1, cmax=8)
    S.require(N <= l)
    a = S.array('a', (l,), dt)
    r = S.call(fapi.moving_average, a, N)
    S.ensure_array("mean of the window", r, (l - N + 1,), lambda f: S.sum(f + N, lambda q: a[q], lo=f) / N)
    S.ensure_unchanged("input unchanged", a)
