import numpy as np
from pyvc.spec import contract
import qampy.core.pythran_dsp as pd
import qampy.core.prbs as pr
import qampy.core.utils as ut
import qampy.signals as sg

ORDERS = {7: (7, 6), 15: (15, 14), 23: (23, 18), 31: (31, 28)}


def history(S, seed, taps, order):
    """the output sequence: bits -order..-1 are the seed register, then every bit is the parity of the tapped earlier bits"""
    O = S.ghost('O', 1, 'b')

    def register(i):
        """the last `order` bits, the newest as the highest digit"""
        r = 0
        for k in range(1, order + 1):
            r = r | S.ite(O(i - k), lambda: S.bits(1 << (order - k)), lambda: S.bits(0))
        return r

    def nxt(i):
        new = O(i - taps[0])
        for t in taps[1:]:
            new = new ^ O(i - t)
        r = S.ite(new, lambda: S.bits(1 << (order - 1)), lambda: S.bits(0))
        for k in range(2, order + 1):
            r = r | S.ite(O(i + 1 - k), lambda: S.bits(1 << (order - k)), lambda: S.bits(0))
        return r
    S.invariant("register holds the last bits", 1, 'bv', 0, register, nxt, lambda: seed)       # bits -order..-1: the digits of the seed

    def bit(i):
        new = O(i - taps[0])
        for t in taps[1:]:
            new = new ^ O(i - t)
        return new
    return bit


def galois(S, seed, mask, order):
    """outputs of the multiplying register: the new output is the parity of the earlier ones selected by the polynomial;
    the first `order` outputs are (triangularly) given by the seed"""
    O = S.ghost('O', 1, 'b')
    m = [bool(mask >> j & 1) for j in range(order + 1)]

    def word(at):
        r = 0
        for k in range(order):
            b = at(k)
            for j in range(1, k + 1):
                if m[order - j]:
                    b = b ^ at(k - j)
            r = r | S.ite(b, lambda: S.bits(1 << (order - 1 - k)), lambda: S.bits(0))
        return r

    def new(i):
        b = None
        for j in range(1, order + 1):
            if m[order - j]:
                b = O(i + order - j) if b is None else b ^ O(i + order - j)
        return b

    def step(i):
        return word(lambda k: O(i + 1 + k) if k < order - 1 else new(i))
    S.invariant("register holds the next bits", 1, 'bv', 0, lambda i: word(lambda k: O(i + k)), step, lambda: seed)
    return O


def ref_ext(seed, taps, order, N):
    h = [seed >> (order - k) & 1 for k in range(order, 0, -1)]      # oldest first
    for i in range(N):
        b = 0
        for t in taps:
            b ^= h[-t]
        h.append(b)
    return np.array(h[order:], dtype=np.int64)


def ref_int(seed, mask, order, N):
    s, out = seed, []
    for i in range(N):
        top = s >> (order - 1) & 1
        s = (s << 1) & (2 ** order - 1)
        if top:
            s ^= mask & (2 ** order - 1)
        out.append(top)
    return np.array(out, dtype=np.int64)


MASKS = {o: 2 ** t[0] + 2 ** t[1] + 1 for o, t in ORDERS.items()}
CASES = [dict(order=o) for o in ORDERS]


@contract("C03", cases=CASES)
def external(S, order):
    """every bit is the parity of the tapped earlier bits, starting from the seed register; exactly N bits"""
    N = S.int('N', 0, cmax=200)
    seed = S.word('seed', 2 ** order)
    taps = ORDERS[order]
    if S.symbolic:
        bit = history(S, seed, taps, order)
        want = lambda i: S.ite(bit(i), lambda: 1, lambda: 0)
    else:
        ref = ref_ext(int(seed), taps, order, N)
        want = lambda i: ref[i]
    o = S.call(pd.prbs_ext, seed, np.array(taps), order, N)
    S.ensure_array("parity of the tapped bits", o, (N,), want)
    o = S.call(pr.make_prbs_extXOR, order, N, seed)
    S.ensure_array("order's taps", o, (N,), lambda i: S.eq(want(i), 1), dtype=bool)


@contract("C03", cases=CASES)
def external_default_seed(S, order):
    N = S.int('N', 0, cmax=200)
    if S.symbolic:
        bit = history(S, S.bits(2 ** order - 1), ORDERS[order], order)
        want = lambda i: S.ite(bit(i), lambda: 1, lambda: 0)
    else:
        ref = ref_ext(2 ** order - 1, ORDERS[order], order, N)
        want = lambda i: ref[i]
    o = S.call(pr.make_prbs_extXOR, order, N)
    S.ensure_array("all registers one", o, (N,), lambda i: S.eq(want(i), 1), dtype=bool)


@contract("C03", cases=CASES)
def internal(S, order):
    """the outputs obey the recurrence of the polynomial, starting from the seed register; exactly N bits"""
    N = S.int('N', 0, cmax=200)
    seed = S.word('seed', 2 ** order)
    if S.symbolic:
        O = galois(S, seed, MASKS[order], order)
        want = lambda i: S.ite(O(i), lambda: 1, lambda: 0)
    else:
        ref = ref_int(int(seed), MASKS[order], order, N)
        want = lambda i: ref[i]
    o = S.call(pd.prbs_int, seed, MASKS[order], order, N)
    S.ensure_array("recurrence of the polynomial", o, (N,), want)
    o = S.call(pr.make_prbs_intXOR, order, N, seed)
    S.ensure_array("order's polynomial", o, (N,), lambda i: S.eq(want(i), 1), dtype=bool)


@contract("C03", cases=CASES)
def internal_default_seed(S, order):
    N = S.int('N', 0, cmax=200)
    if S.symbolic:
        O = galois(S, S.bits(2 ** order - 1), MASKS[order], order)
        want = lambda i: S.ite(O(i), lambda: 1, lambda: 0)
    else:
        ref = ref_int(2 ** order - 1, MASKS[order], order, N)
        want = lambda i: ref[i]
    o = S.call(pr.make_prbs_intXOR, order, N)
    S.ensure_array("all registers one", o, (N,), lambda i: S.eq(want(i), 1), dtype=bool)


def gf2mul(A, B):
    return (A @ B) % 2


def gf2pow(A, n):
    R = np.eye(len(A), dtype=np.int64)
    while n:
        if n & 1:
            R = gf2mul(R, A)
        A = gf2mul(A, A)
        n >>= 1
    return R


FACTORS = {7: (127,), 15: (7, 31, 151), 23: (47, 178481), 31: (2147483647,)}


@contract("C03", kind="bounded", trials=1, cases=[dict(order=o, make=m) for o in ORDERS for m in ('ext', 'int')])
def period(S, order, make):
    """the linear map of the register, observed on a basis of seeds, has order 2^n-1 (so every non-zero seed has that period)"""
    f = pr.make_prbs_extXOR if make == 'ext' else pr.make_prbs_intXOR
    n = order
    # windows of n outputs are a coordinate system of the state: W maps seeds to the first window, V to the window one later
    out = [np.asarray(f(order, n + 1, 1 << b)).astype(np.int64) for b in range(n)]
    W, V = np.array([o[:n] for o in out]).T, np.array([o[1:] for o in out]).T
    x = W.copy()
    # solve V = A W over GF(2)
    M = np.concatenate([W.T, V.T], axis=1) % 2
    r = 0
    for c in range(n):
        piv = next((k for k in range(r, n) if M[k, c]), None)
        S.ensure("outputs determine the state", piv is not None)
        M[[r, piv]] = M[[piv, r]]
        for k in range(n):
            if k != r and M[k, c]:
                M[k] ^= M[r]
        r += 1
    A = M[:, n:].T
    P = 2 ** n - 1
    S.ensure("period divides 2^n-1", np.array_equal(gf2pow(A, P), np.eye(n)))
    for q in FACTORS[order]:
        S.ensure("no smaller period", not np.array_equal(gf2pow(A, P // q), np.eye(n)))
    for _ in range(5):
        s1, s2 = [int(v) for v in S.rng.integers(1, 2 ** order, 2)]
        S.ensure("linear in the seed", np.array_equal(f(order, 300, s1) ^ f(order, 300, s2), f(order, 300, s1 ^ s2)))
        S.ensure("never constant zero", np.asarray(f(order, n, s1)).any())
    if order <= 15:
        o = np.asarray(f(order, 2 * P + 5, int(S.rng.integers(1, 2 ** order))))
        S.ensure("repeats", np.array_equal(o[P:], o[:P + 5]))
        S.ensure("balanced", o[:P].sum() == 2 ** (n - 1))


@contract("C03", kind="bounded", trials=10, cases=CASES)
def generators(S, order):
    """compiled and step-by-step generators agree; seeds as integers, lists or arrays of bits; requested length; bit classes"""
    rng = S.rng
    seed = int(rng.integers(1, 2 ** order))
    N = int(rng.integers(0, 400))
    g = ut.lfsr_ext(seed, list(ORDERS[order]), order)
    S.ensure("external", np.array_equal([next(g)[0] for _ in range(N)], pd.prbs_ext(seed, np.array(ORDERS[order]), order, N)))
    g = ut.lfsr_int(seed, MASKS[order])
    S.ensure("internal", np.array_equal([next(g)[0] for _ in range(N)], pd.prbs_int(seed, MASKS[order], order, N)))
    bits = [bool(seed >> k & 1) for k in range(order)]
    S.ensure("bits of the seed", ut.bool2bin(bits) == seed and ut.bool2bin(np.array(bits)) == seed)
    for f, ref in ((pr.make_prbs_extXOR, ref_ext(seed, ORDERS[order], order, N)), (pr.make_prbs_intXOR, ref_int(seed, MASKS[order], order, N))):
        for sd in (seed, bits, np.array(bits), np.array(bits).astype(int)):
            o = f(order, N, sd)
            S.ensure("sequence of the seed", o.dtype == bool and np.array_equal(o, ref.astype(bool)))
    b = sg.PRBSBits(N, nmodes=2, seed=[seed, None], order=[order, 23])
    S.ensure("bit class", b.shape == (2, N) and np.array_equal(b[0], ref_ext(seed, ORDERS[order], order, N).astype(bool))
             and np.array_equal(b[1], ref_ext(2 ** 23 - 1, ORDERS[23], 23, N).astype(bool)))
