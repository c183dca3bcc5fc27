"""Terms: symbolic scalars over z3, binder nodes (SUM/MIN/ARGMIN/FIRST/...), polynomial normal form."""
from . import __init__ as _  # noqa
import fractions, math, numbers
import numpy as np
import z3

Frac = fractions.Fraction
z3.set_param('smt.random_seed', 0)


class Unsupported(Exception):
    """The code left the fragment the verifier understands."""


# ---------------------------------------------------------------- basic helpers
_fresh = {}


def fresh_name(base):
    n = _fresh.get(base, 0)
    _fresh[base] = n + 1
    return "%s!%d" % (base, n)


def FreshInt(base="k"):
    return z3.Int(fresh_name(base))


def FreshReal(base="x"):
    return z3.Real(fresh_name(base))


def FreshBool(base="p"):
    return z3.Bool(fresh_name(base))


INF = z3.Real("INF!const")
PI = z3.Real("PI!const")
REAL = z3.RealSort()
INT = z3.IntSort()
BOOL = z3.BoolSort()

SQRT = z3.Function("SQRT", REAL, REAL)
COS = z3.Function("COS", REAL, REAL)
SIN = z3.Function("SIN", REAL, REAL)
EXP = z3.Function("EXP", REAL, REAL)
LOG = z3.Function("LOG", REAL, REAL)
LOG2 = z3.Function("LOG2", REAL, REAL)
LOG10 = z3.Function("LOG10", REAL, REAL)
POW = z3.Function("POW", REAL, REAL, REAL)
ATAN2 = z3.Function("ATAN2", REAL, REAL, REAL)
UFS1 = {}


def uf1(name):
    if name not in UFS1:
        UFS1[name] = z3.Function(name, REAL, REAL)
    return UFS1[name]


def is_z3(x):
    return isinstance(x, z3.ExprRef)


def zint(x):
    """Anything int-like -> z3 Int."""
    if isinstance(x, (bool, np.bool_)):
        return z3.IntVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.IntVal(int(x))
    if isinstance(x, Val):
        return x.as_int()
    if is_z3(x):
        if z3.is_int(x):
            return x
        if z3.is_bool(x):
            return z3.If(x, z3.IntVal(1), z3.IntVal(0))
        if z3.is_bv(x):
            return z3.BV2Int(x)
    if isinstance(x, (float, np.floating)) and float(x) == int(x):
        return z3.IntVal(int(x))
    raise Unsupported("not an integer: %r" % (x,))


def integral(t):
    """syntactically integer valued"""
    if z3.is_int(t):
        return True
    if z3.is_rational_value(t):
        return t.denominator_as_long() == 1
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return True
    if z3.is_add(t) or z3.is_mul(t) or z3.is_sub(t) or z3.is_app_of(t, z3.Z3_OP_UMINUS):
        return all(integral(c) for c in t.children())
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return integral(t.arg(1)) and integral(t.arg(2))
    b = binder_of(t)
    if b is not None and b.kind in ('SUM', 'MIN', 'MAX'):
        return integral(b.body)
    return False


def special_const(x):
    """multiples of pi and square roots of small rationals written as floats"""
    if x == 0 or abs(x) > 1e11 or abs(x) < 1e-6:
        return None
    if abs(x) > 1e6:
        q = Frac(round(2 * x / math.pi), 2)
        return z3.RealVal(q) * PI if x != int(x) and abs(float(q) * math.pi - x) <= 4e-16 * abs(x) else None
    f = Frac(x)
    if f.limit_denominator(10 ** 5) == f or abs(float(f.limit_denominator(10 ** 5)) - x) == 0.0:
        return None
    q = Frac(x / math.pi).limit_denominator(64)
    if q != 0 and abs(float(q) * math.pi - x) <= 4e-16 * abs(x):
        return z3.RealVal(q) * PI if q != 1 else PI
    q = Frac(x * x).limit_denominator(512)
    if q != 0 and abs(math.sqrt(q) - abs(x)) <= 3e-16 * abs(x):
        t = SQRT(z3.RealVal(q))
        return t if x > 0 else -t
    return None


def zreal_const(x):
    x = float(x)
    if not (math.isinf(x) or math.isnan(x)):
        sc = special_const(x)
        if sc is not None:
            return sc
    if math.isinf(x):
        return INF if x > 0 else -INF
    if math.isnan(x):
        return z3.Real("NAN!const")
    f = Frac(x)
    g = f.limit_denominator(10 ** 6)
    # decimal literals such as 0.1 or 1/3 are taken as the rational they are written as
    if g != f and abs(float(g) - x) == 0.0:
        f = g
    return z3.RealVal(f)


def conc_int(e):
    """python int if the z3 term / int is a literal, else None"""
    if isinstance(e, numbers.Integral):
        return int(e)
    if is_z3(e):
        if z3.is_int_value(e):
            return e.as_long()
        s = z3.simplify(e)
        if z3.is_int_value(s):
            return s.as_long()
        return None
    if isinstance(e, Val) and e.kind == 'i':
        return conc_int(e.re)
    return None


def simp(e):
    return z3.simplify(e)


def iadd(a, b):
    a, b = unlit(a), unlit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(a, int) and a == 0:
        return b
    if isinstance(b, int) and b == 0:
        return a
    return simp(zint(a) + zint(b))


def isub(a, b):
    a, b = unlit(a), unlit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(zint(a) - zint(b))


def imul(a, b):
    a, b = unlit(a), unlit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    if isinstance(a, int) and a == 1:
        return b
    if isinstance(b, int) and b == 1:
        return a
    if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0):
        return 0
    return simp(zint(a) * zint(b))


def unlit(a):
    c = conc_int(a)
    if c is not None:
        return c
    if isinstance(a, Val):
        return a.as_int()
    return a


def iprod(xs):
    r = 1
    for x in xs:
        r = imul(r, x)
    return r


def And(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)):
            x = And(*x)
        if x is True or (is_z3(x) and z3.is_true(x)):
            continue
        if x is False or (is_z3(x) and z3.is_false(x)):
            return z3.BoolVal(False)
        ys.append(x)
    if not ys:
        return z3.BoolVal(True)
    if len(ys) == 1:
        return ys[0]
    return z3.And(*ys)


def Or(*xs):
    ys = []
    for x in xs:
        if x is True or (is_z3(x) and z3.is_true(x)):
            return z3.BoolVal(True)
        if x is False or (is_z3(x) and z3.is_false(x)):
            continue
        ys.append(x)
    if not ys:
        return z3.BoolVal(False)
    if len(ys) == 1:
        return ys[0]
    return z3.Or(*ys)


def Not(x):
    if x is True:
        return z3.BoolVal(False)
    if x is False:
        return z3.BoolVal(True)
    if z3.is_true(x):
        return z3.BoolVal(False)
    if z3.is_false(x):
        return z3.BoolVal(True)
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def zite(c, a, b):
    if c is True or (is_z3(c) and z3.is_true(c)):
        return a
    if c is False or (is_z3(c) and z3.is_false(c)):
        return b
    if a.eq(b):
        return a
    return z3.If(c, a, b)


# ---------------------------------------------------------------- scalar values
KORD = {'b': 0, 'i': 1, 'bv': 1, 'f': 2, 'c': 3}
KDT = {'b': np.dtype(bool), 'i': np.dtype(int), 'bv': np.dtype(np.int64), 'f': np.dtype(float), 'c': np.dtype(complex)}


def dkind(dt):
    k = np.dtype(dt).kind
    return {'b': 'b', 'i': 'i', 'u': 'i', 'f': 'f', 'c': 'c'}.get(k)


def ones(t, depth=60):
    """digits of a machine word that may be one"""
    full = 2 ** 64 - 1
    if z3.is_bv_value(t):
        return t.as_long()
    if depth == 0 or not z3.is_app(t):
        return full
    k = t.decl().kind()
    if k == z3.Z3_OP_ITE:
        return ones(t.arg(1), depth - 1) | ones(t.arg(2), depth - 1)
    if k in (z3.Z3_OP_BOR, z3.Z3_OP_BXOR):
        r = 0
        for c in t.children():
            r |= ones(c, depth - 1)
        return r
    if k == z3.Z3_OP_BAND:
        r = full
        for c in t.children():
            r &= ones(c, depth - 1)
        return r
    if k in (z3.Z3_OP_BSHL, z3.Z3_OP_BLSHR) and z3.is_bv_value(t.arg(1)):
        n, m = t.arg(1).as_long(), ones(t.arg(0), depth - 1)
        return (m << n) & full if k == z3.Z3_OP_BSHL else m >> n
    if k == z3.Z3_OP_CONCAT:
        r = 0
        for c in t.children():
            r = r << c.size() | ones(c, depth - 1) & (2 ** c.size() - 1)
        return r
    if k == z3.Z3_OP_EXTRACT:
        hi, lo = t.params()
        return ones(t.arg(0), depth - 1) >> lo & (2 ** (hi - lo + 1) - 1)
    return 2 ** t.size() - 1


def int_tree_bv(t):
    """a choice between integer constants as a choice between machine words"""
    if z3.is_int_value(t):
        return z3.BitVecVal(t.as_long(), 64)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        a = int_tree_bv(t.arg(1))
        b = int_tree_bv(t.arg(2)) if a is not None else None
        return z3.If(t.arg(0), a, b) if b is not None else None
    if z3.is_app_of(t, z3.Z3_OP_BV2INT) and t.arg(0).size() == 64:
        return t.arg(0)
    return None


class Val:
    """A symbolic scalar.  kind b|i|f|c|bv; `re` (and `im` for c) are z3 terms; dt is the numpy dtype or None
    for a python scalar.  `defd` (optional) is the condition under which the variable is bound at all."""
    __slots__ = ('kind', 're', 'im', 'dt', 'defd')
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, kind, re, im=None, dt=None, defd=None):
        self.kind, self.re, self.im, self.dt, self.defd = kind, re, im, dt, defd

    # -- conversions
    def as_int(self):
        if self.kind == 'i':
            return self.re
        if self.kind == 'b':
            return z3.If(self.re, z3.IntVal(1), z3.IntVal(0))
        if self.kind == 'bv':
            return z3.BV2Int(self.re)
        raise Unsupported("not an integer value")

    def as_real(self):
        if self.kind == 'f':
            return self.re
        if self.kind in ('i', 'b', 'bv'):
            return z3.ToReal(self.as_int())
        raise Unsupported("complex used as real")

    def as_cpx(self):
        if self.kind == 'c':
            return self.re, self.im
        return self.as_real(), z3.RealVal(0)

    def as_bool(self):
        if self.kind == 'b':
            return self.re
        if self.kind in ('i', 'f'):
            return self.re != 0
        if self.kind == 'bv':
            return self.re != 0
        return z3.Or(self.re != 0, self.im != 0)

    def as_bv(self):
        if self.kind == 'bv':
            return self.re
        c = conc_int(self.re) if self.kind == 'i' else None
        if c is not None:
            return z3.BitVecVal(c, 64)
        if self.kind == 'b':
            return z3.If(self.re, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64))
        if self.kind == 'i':
            r = int_tree_bv(self.re)
            if r is not None:
                return r
        raise Unsupported("symbolic integer used as bit vector: %s" % str(self.re)[:300])

    @property
    def dtype(self):
        return self.dt if self.dt is not None else KDT[self.kind]

    @property
    def real(self):
        if self.kind == 'c':
            return Val('f', self.re, None, real_dtype(self.dt))
        return self

    @property
    def imag(self):
        if self.kind == 'c':
            return Val('f', self.im, None, real_dtype(self.dt))
        return Val('f', z3.RealVal(0), None, self.dt)

    def conj(self):
        return Val('c', self.re, -self.im, self.dt) if self.kind == 'c' else self

    def __repr__(self):
        return "Val(%s,%s%s)" % (self.kind, self.re, "" if self.im is None else ", " + str(self.im))

    # -- arithmetic
    def __add__(self, o): return binop('+', self, o)
    def __radd__(self, o): return binop('+', o, self)
    def __sub__(self, o): return binop('-', self, o)
    def __rsub__(self, o): return binop('-', o, self)
    def __mul__(self, o): return binop('*', self, o)
    def __rmul__(self, o): return binop('*', o, self)
    def __truediv__(self, o): return binop('/', self, o)
    def __rtruediv__(self, o): return binop('/', o, self)
    def __floordiv__(self, o): return binop('//', self, o)
    def __rfloordiv__(self, o): return binop('//', o, self)
    def __mod__(self, o): return binop('%', self, o)
    def __rmod__(self, o): return binop('%', o, self)
    def __pow__(self, o): return binop('**', self, o)
    def __rpow__(self, o): return binop('**', o, self)
    def __lshift__(self, o): return binop('<<', self, o)
    def __rlshift__(self, o): return binop('<<', o, self)
    def __rshift__(self, o): return binop('>>', self, o)
    def __rrshift__(self, o): return binop('>>', o, self)
    def __and__(self, o): return binop('&', self, o)
    def __rand__(self, o): return binop('&', o, self)
    def __or__(self, o): return binop('|', self, o)
    def __ror__(self, o): return binop('|', o, self)
    def __xor__(self, o): return binop('^', self, o)
    def __rxor__(self, o): return binop('^', o, self)
    def __lt__(self, o): return compare('<', self, o)
    def __le__(self, o): return compare('<=', self, o)
    def __gt__(self, o): return compare('>', self, o)
    def __ge__(self, o): return compare('>=', self, o)
    def __eq__(self, o): return compare('==', self, o)
    def __ne__(self, o): return compare('!=', self, o)
    def __neg__(self): return unop('-', self)
    def __pos__(self): return self
    def __invert__(self): return unop('~', self)
    def __abs__(self): return vabs(self)
    __hash__ = object.__hash__

    def __bool__(self):
        t = simp(self.as_bool())
        if z3.is_true(t):
            return True
        if z3.is_false(t):
            return False
        raise Unsupported("truth value of a symbolic expression taken outside the interpreter: %s" % t)


def real_dtype(dt):
    if dt is None:
        return None
    if dt.kind == 'c':
        return np.dtype('f%d' % (dt.itemsize // 2))
    return dt


def cpx_dtype(dt):
    if dt is None:
        return None
    if dt.kind == 'f':
        return np.dtype('c%d' % (dt.itemsize * 2)) if dt.itemsize >= 4 else np.dtype('c8')
    if dt.kind == 'c':
        return dt
    return np.dtype(complex)


def is_scalar(x):
    return isinstance(x, (Val, bool, int, float, complex, np.generic)) and not isinstance(x, (np.str_, np.bytes_))


def lift(x):
    if isinstance(x, Val):
        return x
    dt = x.dtype if isinstance(x, np.generic) else None
    if isinstance(x, (bool, np.bool_)):
        return Val('b', z3.BoolVal(bool(x)), None, dt)
    if isinstance(x, numbers.Integral):
        return Val('i', z3.IntVal(int(x)), None, dt)
    if isinstance(x, (float, np.floating)):
        return Val('f', zreal_const(x), None, dt)
    if isinstance(x, (complex, np.complexfloating)):
        return Val('c', zreal_const(x.real), zreal_const(x.imag), dt)
    if is_z3(x):
        if z3.is_bool(x):
            return Val('b', x)
        if z3.is_int(x):
            return Val('i', x)
        if z3.is_real(x):
            return Val('f', x)
        if z3.is_bv(x):
            return Val('bv', x)
    if isinstance(x, Frac):
        return Val('f', z3.RealVal(x))
    raise Unsupported("cannot make a scalar of %r" % (type(x),))


def cast(v, kind, dt=None):
    v = lift(v)
    if v.kind == kind:
        return Val(kind, v.re, v.im, dt if dt is not None else v.dt, v.defd)
    if kind == 'c':
        re, im = v.as_cpx()
        return Val('c', re, im, dt, v.defd)
    if kind == 'f':
        if v.kind == 'c':
            return Val('f', v.re, None, dt, v.defd)    # numpy discards the imaginary part on assignment
        return Val('f', v.as_real(), None, dt, v.defd)
    if kind == 'i':
        if v.kind == 'f':
            return Val('i', trunc(v.re), None, dt, v.defd)
        if v.kind == 'bv':
            return Val('bv', v.re, None, dt, v.defd)
        return Val('i', v.as_int(), None, dt, v.defd)
    if kind == 'b':
        return Val('b', v.as_bool(), None, dt, v.defd)
    if kind == 'bv':
        return Val('bv', v.as_bv(), None, dt, v.defd)
    raise Unsupported("cast to %s" % kind)


def trunc(x):
    if z3.is_rational_value(x):
        return z3.IntVal(int(Frac(x.numerator_as_long(), x.denominator_as_long())))
    s = simp(x)
    if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
        return s.arg(0)
    return z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))


def scal_dt(kind, *vals):
    """dtype of a scalar result; None if all operands are python scalars."""
    dts = [v.dt for v in vals if v.dt is not None]
    if not dts:
        return None
    try:
        dt = np.result_type(*[np.dtype(d) for d in dts])
        # python scalars of higher kind promote (weakly)
        if KORD[dkind(dt)] < KORD[kind]:
            if kind == 'c':
                dt = cpx_dtype(dt)
            elif kind == 'f':
                dt = np.dtype(float)
            elif kind in ('i', 'bv'):
                dt = np.dtype(int)
        elif KORD[dkind(dt)] > KORD[kind]:
            dt = {'f': real_dtype(dt), 'b': np.dtype(bool), 'i': np.dtype(int), 'bv': np.dtype(int)}.get(kind, dt)
        return dt
    except TypeError:
        return None


def radd(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return simp(a + b)
    if _is0(a): return b
    if _is0(b): return a
    return a + b


def rsub(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return simp(a - b)
    if _is0(b): return a
    if _is0(a): return -b
    return a - b


def _is0(a):
    return z3.is_rational_value(a) and a.numerator_as_long() == 0 or z3.is_int_value(a) and a.as_long() == 0


def _is1(a):
    return (z3.is_rational_value(a) and a.numerator_as_long() == 1 and a.denominator_as_long() == 1
            or z3.is_int_value(a) and a.as_long() == 1)


def rmul(a, b):
    if z3.is_rational_value(a) and z3.is_rational_value(b):
        return simp(a * b)
    if _is0(a): return a
    if _is0(b): return b
    if _is1(a): return b
    if _is1(b): return a
    # push products into 0/x conditionals
    if z3.is_app_of(a, z3.Z3_OP_UNINTERPRETED) and a.eq(b) and a.decl().eq(SQRT) and nonneg_syn(a.arg(0)):
        return a.arg(0)
    return a * b


def rdiv(a, b):
    if _is0(a) and not _is0(b):
        return a
    if _is1(b):
        return a
    if z3.is_rational_value(a) and z3.is_rational_value(b) and not _is0(b):
        return simp(a / b)
    return a / b


def nonneg_syn(t):
    """syntactically a sum of squares / nonnegative"""
    if z3.is_rational_value(t):
        return t.numerator_as_long() >= 0
    if z3.is_add(t):
        return all(nonneg_syn(c) for c in t.children())
    if z3.is_mul(t):
        ch = list(t.children())
        if len(ch) == 2 and ch[0].eq(ch[1]):
            return True
        return all(nonneg_syn(c) for c in ch)
    if z3.is_div(t):
        return nonneg_syn(t.arg(0)) and nonneg_syn(t.arg(1))
    if z3.is_app_of(t, z3.Z3_OP_POWER):
        c = t.arg(1)
        return z3.is_int_value(c) and c.as_long() % 2 == 0 or (z3.is_rational_value(c) and c.numerator_as_long() % 2 == 0)
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        if nonneg_syn(t.arg(1)) and nonneg_syn(t.arg(2)):
            return True
        return is_absite(t)
    if z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED):
        if t.decl().eq(SQRT) or t.decl().eq(EXP):
            return True
        nd = binder_of(t)
        if nd is not None and nd.kind == 'SUM':
            return nonneg_syn(nd.body)
        if nd is not None and nd.kind in ('MIN', 'MAX'):
            return nonneg_syn(nd.body)
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL) or z3.is_app_of(t, z3.Z3_OP_TO_INT):
        return nonneg_syn(t.arg(0))
    if z3.is_int_value(t):
        return t.as_long() >= 0
    return False


def is_absite(t):
    """ite(x>=0, x, -x)"""
    c, a, b = t.arg(0), t.arg(1), t.arg(2)
    if z3.is_app_of(c, z3.Z3_OP_GE) and c.arg(0).eq(a) and _is0(c.arg(1)):
        return b.eq(-a) or simp(a + b).eq(z3.RealVal(0))
    return False


def rabs(x):
    if z3.is_rational_value(x):
        return simp(z3.If(x >= 0, x, -x))
    if nonneg_syn(x):
        return x
    return z3.If(x >= 0, x, -x)


def sqrt_term(t):
    if z3.is_rational_value(t):
        f = Frac(t.numerator_as_long(), t.denominator_as_long())
        if f >= 0:
            a, b = math.isqrt(f.numerator), math.isqrt(f.denominator)
            if a * a == f.numerator and b * b == f.denominator:
                return z3.RealVal(Frac(a, b))
    return SQRT(t)


def vabs(v):
    v = lift(v)
    if v.kind == 'c':
        # |z| with a zero part is a real absolute value
        if _is0(v.im):
            return Val('f', rabs(v.re), None, real_dtype(v.dt))
        return Val('f', SQRT(rmul(v.re, v.re) + rmul(v.im, v.im)), None, real_dtype(v.dt))
    if v.kind == 'f':
        return Val('f', rabs(v.re), None, v.dt)
    if v.kind == 'i':
        return Val('i', z3.If(v.re >= 0, v.re, -v.re), None, v.dt)
    if v.kind == 'b':
        return Val('b', v.re, None, v.dt)
    raise Unsupported("abs")


def abs2(v):
    v = lift(v)
    if v.kind == 'c':
        return Val('f', radd(rmul(v.re, v.re), rmul(v.im, v.im)), None, real_dtype(v.dt))
    return binop('*', v, v)


def rpow(x, n):
    if n == 0:
        return z3.RealVal(1)
    if n < 0:
        return rdiv(z3.RealVal(1), rpow(x, -n))
    r = None
    # even powers of |x| and SQRT
    if n % 2 == 0 and z3.is_app_of(x, z3.Z3_OP_ITE) and is_absite(x):
        x = x.arg(1)
    if n % 2 == 0 and z3.is_app_of(x, z3.Z3_OP_UNINTERPRETED) and x.decl().eq(SQRT) and nonneg_syn(x.arg(0)):
        return rpow(x.arg(0), n // 2)
    for _ in range(n):
        r = x if r is None else rmul(r, x)
    return r


FLOORDIV_SIDE = []     # callbacks may check that a divisor is positive
POS_MADE = {}          # divisors shown positive while the code was executed (the terms are kept alive)
POS_SEEN = None        # ... accepted again when the prover instantiates schemas built during that execution


def pos_divisor(b):
    c = conc_int(b)
    if c is not None:
        return c > 0
    if POS_SEEN is not None and b.get_id() in POS_SEEN:
        return True
    for cb in FLOORDIV_SIDE:
        if cb(b):
            POS_MADE[b.get_id()] = b
            return True
    return False


def idiv_term(a, b):
    ca, cb = conc_int(a), conc_int(b)
    if ca is not None and cb is not None and cb != 0:
        return z3.IntVal(ca // cb)
    if cb == 1:
        return a
    if cb is not None and cb < 0:
        return idiv_term(simp(-a), z3.IntVal(-cb))
    if not pos_divisor(b):
        raise Unsupported("integer division by a divisor not known to be positive: %s" % b)
    # (b*q) // b
    return a / b


def imod_term(a, b):
    ca, cb = conc_int(a), conc_int(b)
    if ca is not None and cb is not None and cb != 0:
        return z3.IntVal(ca % cb)
    if cb == 1:
        return z3.IntVal(0)
    if not pos_divisor(b):
        raise Unsupported("modulo by a divisor not known to be positive: %s" % b)
    return a % b


def binop(op, a, b):
    if not is_scalar(a) or not is_scalar(b):
        if isinstance(a, Val):
            return NotImplemented
        return NotImplemented
    if not isinstance(a, Val) and not isinstance(b, Val):
        return _pyop(op, a, b)
    a, b = lift(a), lift(b)
    if op in ('&', '|', '^') and a.kind == 'b' and b.kind == 'b':
        f = {'&': lambda x, y: And(x, y), '|': lambda x, y: Or(x, y), '^': lambda x, y: z3.Xor(x, y)}[op]
        return Val('b', f(a.re, b.re), None, scal_dt('b', a, b))
    if a.kind == 'bv' or b.kind == 'bv' or op in ('&', '|', '^'):
        if op in ('+', '-', '*', '<<', '>>', '&', '|', '^'):
            if op in ('+', '-', '*') and ('f' in (a.kind, b.kind) or 'c' in (a.kind, b.kind)):
                pass
            else:
                try:
                    x, y = a.as_bv(), b.as_bv()
                except Unsupported:
                    if op in ('&', '|', '^'):
                        raise
                    x = None
                if x is not None:
                    f = {'+': lambda: x | y if ones(x) & ones(y) == 0 else x + y, '-': lambda: x - y, '*': lambda: x * y, '<<': lambda: x << y,
                         '>>': lambda: z3.LShR(x, y), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y}[op]
                    return Val('bv', simp(f()), None, scal_dt('bv', a, b))
        if op in ('//', '%') and conc_int(b.re) is not None:
            c = conc_int(b.re)
            x = a.as_bv()
            return Val('bv', z3.UDiv(x, z3.BitVecVal(c, 64)) if op == '//' else z3.URem(x, z3.BitVecVal(c, 64)), None, scal_dt('bv', a, b))
    if op in ('<<', '>>'):
        c = conc_int(b.as_int())
        if c is not None and c >= 0:
            x = a.as_int()
            return Val('i', x * (2 ** c) if op == '<<' else x / z3.IntVal(2 ** c), None, scal_dt('i', a, b))
        raise Unsupported("shift by a symbolic amount")
    if op in ('//', '%'):
        if KORD[a.kind] <= 1 and KORD[b.kind] <= 1:
            x, y = a.as_int(), b.as_int()
            return Val('i', idiv_term(x, y) if op == '//' else imod_term(x, y), None, scal_dt('i', a, b))
        if a.kind != 'c' and b.kind != 'c':
            x, y = a.as_real(), b.as_real()
            q = z3.ToReal(z3.ToInt(rdiv(x, y)))
            return Val('f', q if op == '//' else x - y * q, None, scal_dt('f', a, b))
        raise Unsupported("complex //")
    if op == '**':
        return vpow(a, b)
    k = a.kind if KORD[a.kind] >= KORD[b.kind] else b.kind
    if op == '/' and KORD[k] < 2:
        k = 'f'
    if k == 'b':
        if op in ('+',) and a.dt is not None and b.dt is not None:
            return Val('b', Or(a.re, b.re), None, scal_dt('b', a, b))
        if op == '*' and a.dt is not None and b.dt is not None:
            return Val('b', And(a.re, b.re), None, scal_dt('b', a, b))
        k = 'i'
    if k == 'bv':
        k = 'i'
    dt = scal_dt(k, a, b)
    if k == 'i':
        x, y = a.as_int(), b.as_int()
        r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y}[op]()
        return Val('i', simp(r) if (conc_int(x) is not None or conc_int(y) is not None) else r, None, dt)
    if k == 'f':
        x, y = a.as_real(), b.as_real()
        r = {'+': radd, '-': rsub, '*': rmul, '/': rdiv}[op](x, y)
        return Val('f', r, None, dt)
    ar, ai = a.as_cpx()
    br, bi = b.as_cpx()
    if op == '+':
        return Val('c', radd(ar, br), radd(ai, bi), dt)
    if op == '-':
        return Val('c', rsub(ar, br), rsub(ai, bi), dt)
    if op == '*':
        return Val('c', rsub(rmul(ar, br), rmul(ai, bi)), radd(rmul(ar, bi), rmul(ai, br)), dt)
    if op == '/':
        if _is0(bi):
            return Val('c', rdiv(ar, br), rdiv(ai, br), dt)
        d = radd(rmul(br, br), rmul(bi, bi))
        return Val('c', rdiv(radd(rmul(ar, br), rmul(ai, bi)), d), rdiv(rsub(rmul(ai, br), rmul(ar, bi)), d), dt)
    raise Unsupported(op)


def _pyop(op, a, b):
    import operator as o
    return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow,
            '<<': o.lshift, '>>': o.rshift, '&': o.and_, '|': o.or_, '^': o.xor, '@': o.matmul}[op](a, b)


def conc_scalar(v):
    """python number if concrete else None"""
    if not isinstance(v, Val):
        return v
    if v.kind == 'i':
        return conc_int(v.re)
    if v.kind == 'f' and z3.is_rational_value(v.re):
        return Frac(v.re.numerator_as_long(), v.re.denominator_as_long())
    if v.kind == 'c' and z3.is_rational_value(v.re) and z3.is_rational_value(v.im):
        return complex(float(Frac(v.re.numerator_as_long(), v.re.denominator_as_long())),
                       float(Frac(v.im.numerator_as_long(), v.im.denominator_as_long())))
    return None


def vpow(a, b):
    e = conc_scalar(b)
    dt = scal_dt('f' if KORD[a.kind] < 3 else 'c', a, b)
    if e is not None and not isinstance(e, complex):
        ef = Frac(e)
        if ef.denominator == 1:
            n = int(ef)
            if a.kind == 'c':
                if n == 0:
                    return Val('c', z3.RealVal(1), z3.RealVal(0), dt)
                r = a
                for _ in range(abs(n) - 1):
                    r = binop('*', r, a)
                return r if n > 0 else binop('/', lift(1.0), r)
            if a.kind in ('i', 'b') and n >= 0 and b.kind == 'i':
                x = a.as_int()
                r = z3.IntVal(1)
                for _ in range(n):
                    r = r * x
                return Val('i', simp(r), None, scal_dt('i', a, b))
            return Val('f', rpow(a.as_real(), n), None, dt)
        if ef == Frac(1, 2) and a.kind != 'c':
            return Val('f', sqrt_term(a.as_real()), None, dt)
    ca = conc_scalar(a)
    if b.kind in ('i', 'b') and e is None:
        bi = simp(b.as_int())
        if z3.is_app_of(bi, z3.Z3_OP_ITE) and z3.is_int_value(bi.arg(1)) and z3.is_int_value(bi.arg(2)):
            return vite(bi.arg(0), vpow(a, Val('i', bi.arg(1))), vpow(a, Val('i', bi.arg(2))))
        if ca == -1 and a.kind == 'i':
            return Val('i', z3.If(bi % 2 == 0, z3.IntVal(1), z3.IntVal(-1)), None, scal_dt('i', a, b))
    if a.kind in ('i',) and b.kind in ('i',) and ca is not None:
        # constant ** symbolic integer
        return Val('i', z3.ToInt(POW(a.as_real(), b.as_real())), None, scal_dt('i', a, b))
    if a.kind == 'c' and e is None and ca == 1j and b.kind == 'i':
        m = b.re % 4
        return Val('c', z3.If(m == 0, z3.RealVal(1), z3.If(m == 2, z3.RealVal(-1), z3.RealVal(0))),
                   z3.If(m == 1, z3.RealVal(1), z3.If(m == 3, z3.RealVal(-1), z3.RealVal(0))), dt)
    if a.kind != 'c' and b.kind != 'c':
        return Val('f', POW(a.as_real(), b.as_real()), None, dt)
    raise Unsupported("complex power with symbolic exponent")


def unop(op, a):
    if not isinstance(a, Val):
        import operator as o
        return {'-': o.neg, '~': o.invert, '+': o.pos, 'not': o.not_}[op](a)
    if op == '-':
        if a.kind == 'c':
            return Val('c', simp(-a.re) if z3.is_rational_value(a.re) else -a.re, simp(-a.im) if z3.is_rational_value(a.im) else -a.im, a.dt)
        if a.kind == 'f':
            return Val('f', simp(-a.re) if z3.is_rational_value(a.re) else -a.re, None, a.dt)
        if a.kind == 'bv':
            return Val('bv', -a.re, None, a.dt)
        return Val('i', simp(-a.as_int()), None, a.dt)
    if op == '~':
        if a.kind == 'b':
            return Val('b', Not(a.re), None, a.dt)
        if a.kind == 'bv':
            return Val('bv', ~a.re, None, a.dt)
        return Val('i', -a.as_int() - 1, None, a.dt)
    if op == '+':
        return a
    if op == 'not':
        return Val('b', Not(a.as_bool()))
    raise Unsupported(op)


def has_const(t, c):
    return any(x.eq(c) for x in subterms(t) if z3.is_const(x))


_INFID = INF.get_id()


def has_inf(t):
    return _INFID in const_ids(t)


def infsign(t):
    """+1/-1 for the infinities, 0 for a finite term, None when it may be either"""
    if not has_inf(t):
        return 0
    if t.eq(INF):
        return 1
    if t.eq(-INF) or t.eq(simp(-INF)) or t.eq(z3.RealVal(-1) * INF):
        return -1
    return None


_cid_cache = {}


def const_ids(t):
    k = t.get_id()
    r = _cid_cache.get(k)
    if r is None:
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            r = frozenset([k])
        else:
            r = frozenset()
            for c in t.children():
                r |= const_ids(c)
        _cid_cache[k] = r
        _keep.append(t)
    return r


_keep = []


def compare(op, a, b):
    if not is_scalar(a) or not is_scalar(b):
        return NotImplemented
    if not isinstance(a, Val) and not isinstance(b, Val):
        import operator as o
        return {'<': o.lt, '<=': o.le, '>': o.gt, '>=': o.ge, '==': o.eq, '!=': o.ne}[op](a, b)
    a, b = lift(a), lift(b)
    if a.kind == 'c' or b.kind == 'c':
        ar, ai = a.as_cpx()
        br, bi = b.as_cpx()
        if op == '==':
            return Val('b', And(ar == br, ai == bi))
        if op == '!=':
            return Val('b', Or(ar != br, ai != bi))
        if op in ('<', '>', '<=', '>='):     # numpy's lexicographic order on complex values
            strict = {'<': ar < br, '<=': ar < br, '>': ar > br, '>=': ar > br}[op]
            tie = {'<': ai < bi, '<=': ai <= bi, '>': ai > bi, '>=': ai >= bi}[op]
            return Val('b', z3.Or(strict, z3.And(ar == br, tie)))
    if a.kind == 'b' and b.kind == 'b' and op in ('==', '!='):
        e = a.re == b.re
        return Val('b', simp(e) if op == '==' else simp(Not(e)))
    if a.kind == 'bv' or b.kind == 'bv':
        try:
            x, y = a.as_bv(), b.as_bv()
            f = {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE, '==': lambda p, q: p == q, '!=': lambda p, q: p != q}[op]
            return Val('b', simp(f(x, y)))
        except Unsupported:
            pass
    if KORD[a.kind] <= 1 and KORD[b.kind] <= 1:
        x, y = a.as_int(), b.as_int()
    else:
        x, y = a.as_real(), b.as_real()
        sx, sy = infsign(x), infsign(y)
        if (sx or sy) and sx is not None and sy is not None:
            r = {'<': sx < sy, '<=': sx <= sy, '>': sx > sy, '>=': sx >= sy, '==': sx == sy, '!=': sx != sy}[op]
            if r is not None:
                return Val('b', z3.BoolVal(r))
    if x.eq(y):
        return Val('b', z3.BoolVal(op in ('<=', '>=', '==')))
    f = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y, '>=': lambda: x >= y,
         '==': lambda: x == y, '!=': lambda: x != y}[op]
    r = f()
    if (z3.is_int_value(x) or z3.is_rational_value(x)) and (z3.is_int_value(y) or z3.is_rational_value(y)):
        r = simp(r)
    return Val('b', r)


def vite(c, a, b):
    """ite over scalars; c z3 Bool"""
    if c is True or z3.is_true(c):
        return a
    if c is False or z3.is_false(c):
        return b
    if not isinstance(a, Val) and not isinstance(b, Val) and type(a) is type(b) and a == b:
        return a
    a, b = lift(a), lift(b)
    k = a.kind if KORD[a.kind] >= KORD[b.kind] else b.kind
    if 'bv' in (a.kind, b.kind) and k in ('i', 'bv', 'b'):
        k = 'bv'
    dt = a.dt if a.dt is not None and a.dt == b.dt else scal_dt(k, a, b)
    defd = None
    if a.defd is not None or b.defd is not None:
        da = a.defd if a.defd is not None else z3.BoolVal(True)
        db = b.defd if b.defd is not None else z3.BoolVal(True)
        defd = simp(zite(c, da, db))
        if z3.is_true(defd):
            defd = None
    if k == 'c':
        ar, ai = a.as_cpx()
        br, bi = b.as_cpx()
        return Val('c', zite(c, ar, br), zite(c, ai, bi), dt, defd)
    if k == 'f':
        return Val('f', zite(c, a.as_real(), b.as_real()), None, dt, defd)
    if k == 'i':
        return Val('i', zite(c, a.as_int(), b.as_int()), None, dt, defd)
    if k == 'bv':
        try:
            return Val('bv', zite(c, a.as_bv(), b.as_bv()), None, dt, defd)
        except Unsupported:
            return Val('i', zite(c, a.as_int(), b.as_int()), None, dt, defd)
    x, y = simp(a.re), simp(b.re)
    if z3.is_true(x) and z3.is_false(y):
        return Val('b', c, None, dt, defd)
    if z3.is_false(x) and z3.is_true(y):
        return Val('b', Not(c), None, dt, defd)
    return Val('b', zite(c, x, y), None, dt, defd)


def cexp(v):
    """exp of a scalar"""
    v = lift(v)
    if v.kind == 'c':
        dt = v.dt
        if _is0(v.re):
            c, s = cos_sin(v.im)
            return Val('c', c, s, dt)
        c, s = cos_sin(v.im)
        e = EXP(v.re)
        return Val('c', rmul(e, c), rmul(e, s), dt)
    x = v.as_real()
    if _is0(x):
        return Val('f', z3.RealVal(1), None, v.dt)
    return Val('f', EXP(x), None, v.dt)


def cos_sin(x):
    """(cos x, sin x) with the sign of the argument normalised."""
    if _is0(x):
        return z3.RealVal(1), z3.RealVal(0)
    p = poly(x)
    if not p:
        return z3.RealVal(1), z3.RealVal(0)
    # multiples of pi/2 evaluate
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((_PIKEY, 1),):
            q = c * 2
            if q.denominator == 1:
                q = int(q) % 4
                return (z3.RealVal([1, 0, -1, 0][q]), z3.RealVal([0, 1, 0, -1][q]))
    lead = min(p.keys(), key=lambda m: tuple(m))
    if p[lead] < 0:
        y = poly_to_z3({m: -c for m, c in p.items()})
        return COS(y), -SIN(y)
    y = poly_to_z3(p)
    return COS(y), SIN(y)


# ---------------------------------------------------------------- traversal
def subterms(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        yield x
        if z3.is_app(x):
            stack.extend(x.children())


def rewrite(t, fn, memo=None):
    """bottom-up rewriting; fn(expr_with_new_children, original) -> expr or None.  Descends into binder bodies via args only."""
    memo = {} if memo is None else memo

    def go(x):
        k = x.get_id()
        if k in memo:
            return memo[k][1]
        ch = x.children()
        if ch:
            nch = [go(c) for c in ch]
            if any(not a.eq(b) for a, b in zip(ch, nch)):
                y = rebuild(x, nch)
            else:
                y = x
        else:
            y = x
        r = fn(y)
        if r is None:
            r = y
        memo[k] = (x, r)
        return r
    return go(t)


def rebuild(x, nch):
    k = x.decl().kind()
    if k == z3.Z3_OP_AND:
        return And(*nch)
    if k == z3.Z3_OP_OR:
        return Or(*nch)
    if k == z3.Z3_OP_NOT:
        return Not(nch[0])
    if k == z3.Z3_OP_ITE:
        return zite(nch[0], nch[1], nch[2])
    if k == z3.Z3_OP_ADD:
        r = nch[0]
        for c in nch[1:]:
            r = r + c
        return r
    if k == z3.Z3_OP_MUL:
        r = nch[0]
        for c in nch[1:]:
            r = r * c
        return r
    return x.decl()(*nch)


def subst(t, pairs):
    """simultaneous substitution of constants (z3.substitute), keeps sorts."""
    if not pairs:
        return t
    return z3.substitute(t, *[(a, b) for a, b in pairs])


def free_consts(t):
    out = {}
    for x in subterms(t):
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out[x.decl().name()] = x
    return out


# ---------------------------------------------------------------- binder nodes
class Binder:
    """A closed binder: params, bound variable, [lo,hi), body (z3 term over params and bvar)."""
    __slots__ = ('id', 'kind', 'params', 'bvar', 'lo', 'hi', 'body', 'decl', 'sort')


BINDERS = {}      # decl name -> Binder
_bkeys = {}
GLOBAL_CONSTS = {"INF!const", "PI!const", "NAN!const"}


def make_binder(kind, bvar, lo, hi, body, sort):
    lo, hi = zint(lo), zint(hi)
    body = simp_light(body)
    fv = {}
    for t in (lo, hi, body):
        for n, c in free_consts(t).items():
            if n != bvar.decl().name() and n not in GLOBAL_CONSTS:
                fv[n] = c
    names = sorted(fv)
    actual = [fv[n] for n in names]
    params = [z3.Const("P!%d!%s" % (i, a.sort()), a.sort()) for i, a in enumerate(actual)]
    bv = z3.Const("B!%s" % bvar.sort(), bvar.sort())
    # avoid capture: if the body already mentions the canonical names rename through temporaries
    tmp = [(a, z3.Const("T!%d!%s" % (i, a.sort()), a.sort())) for i, a in enumerate(actual)]
    tmp.append((bvar, z3.Const("T!b!%s" % bvar.sort(), bvar.sort())))
    fin = [(t[1], p) for t, p in zip(tmp, params + [bv])]

    def cl(t):
        return subst(subst(t, tmp), fin)
    lo2, hi2, body2 = cl(lo), cl(hi), cl(body)
    key = (kind, len(params), lo2.sexpr(), hi2.sexpr(), body2.sexpr(), str(sort), tuple(str(p.sort()) for p in params))
    b = _bkeys.get(key)
    if b is None:
        b = Binder()
        b.id = len(BINDERS)
        b.kind, b.params, b.bvar, b.lo, b.hi, b.body, b.sort = kind, params, bv, lo2, hi2, body2, sort
        name = "%s#%d" % (kind, b.id)
        if params:
            b.decl = z3.Function(name, *([p.sort() for p in params] + [sort]))
        else:
            b.decl = z3.Const(name, sort).decl()
        BINDERS[name] = b
        _bkeys[key] = b
    return b.decl(*actual)


def binder_of(t):
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return BINDERS.get(t.decl().name())
    return None


def open_binder(t, at):
    """(lo, hi, body[at]) of the binder application t"""
    b = BINDERS[t.decl().name()]
    args = t.children()
    tmp = [(p, z3.Const("U!%d!%s" % (i, p.sort()), p.sort())) for i, p in enumerate(b.params)]
    ub = z3.Const("U!b!%s" % b.bvar.sort(), b.bvar.sort())
    tmp.append((b.bvar, ub))
    fin = [(x[1], a) for x, a in zip(tmp, args)]
    lo = subst(subst(b.lo, tmp), fin)
    hi = subst(subst(b.hi, tmp), fin)
    body = subst(subst(b.body, tmp), fin + [(ub, at)])
    return lo, hi, body


def simp_light(t):
    return t


UNROLL_SUM = 4


def SumT(lo, hi, f, base="s"):
    """real-valued sum of f(k), k in [lo,hi) ; f: z3 Int -> z3 Real (or Int)"""
    lo, hi = zint(lo), zint(hi)
    cl, ch = conc_int(lo), conc_int(hi)
    if cl is not None and ch is not None and ch - cl <= UNROLL_SUM:
        if ch <= cl:
            return z3.RealVal(0)
        r = f(z3.IntVal(cl))
        for q in range(cl + 1, ch):
            r = radd(r, f(z3.IntVal(q)))
        return r
    k = FreshInt(base)
    body = f(k)
    if _is0(body):
        return body
    return make_binder('SUM', k, lo, hi, body, body.sort())


def MinT(lo, hi, f, kind='MIN'):
    k = FreshInt("m")
    body = f(k)
    cl, ch = conc_int(lo), conc_int(hi)
    if cl is not None and ch is not None and ch - cl == 1:
        if kind in ('MIN', 'MAX'):
            return f(z3.IntVal(cl))
        return z3.IntVal(cl)
    sort = body.sort() if kind in ('MIN', 'MAX') else INT
    if z3.is_app(body) and body.decl().eq(SQRT) and nonneg_syn(body.arg(0)):
        # the square root is strictly increasing on the non-negative reals
        r = make_binder(kind, k, lo, hi, body.arg(0), REAL if kind in ('MIN', 'MAX') else INT)
        return sqrt_term(r) if kind in ('MIN', 'MAX') else r
    return make_binder(kind, k, lo, hi, body, sort)


def FirstT(lo, hi, f):
    """least k in [lo,hi) with f(k) true, hi if none (f: z3 Int -> Bool)"""
    k = FreshInt("w")
    return make_binder('FIRST', k, lo, hi, f(k), INT)


def AnyT(lo, hi, f):
    k = FreshInt("e")
    return make_binder('ANY', k, lo, hi, f(k), BOOL)


# ---------------------------------------------------------------- polynomial normal form
# A poly is a dict: monomial -> Fraction ; monomial = sorted tuple of (atomkey, power)
ATOMS = {}          # key -> z3 term (representative)
ATOM_DEPS = {}      # key -> frozenset of free const names
_polymemo = {}
_PIKEY = 'PI!const'
ATOMS[_PIKEY] = PI
ATOM_DEPS[_PIKEY] = frozenset()


def padd(p, q, c=1):
    r = dict(p)
    for m, k in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    # reductions: SQRT(x)^2 = x is applied in pmul (result is a poly)
    return tuple(sorted((a, e) for a, e in d.items() if e != 0))


class PolyTooBig(Exception):
    pass


def pmul(p, q):
    if len(p) * len(q) > 4000:
        raise PolyTooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            for mm, cc in mreduce(m).items():
                v = r.get(mm, 0) + c1 * c2 * cc
                if v == 0:
                    r.pop(mm, None)
                else:
                    r[mm] = v
    return r


DEN_ARG = {}         # key of a DEN atom -> the polynomial it stands for
SQRT_ARG = {}        # key of SQRT atom -> poly of argument (only when argument syntactically nonneg)
SIN_OF = {}          # key of SIN atom -> key of COS atom


def mreduce(m):
    """apply SQRT(x)^2 -> x and SIN^2 -> 1-COS^2"""
    for a, e in m:
        if e >= 2 and a in SQRT_ARG:
            rest = tuple((b, f) for b, f in m if b != a)
            if e - 2:
                rest = tuple(sorted(rest + ((a, e - 2),)))
            return pmul(SQRT_ARG[a], {rest: Frac(1)})
        if e >= 2 and a in SIN_OF:
            rest = tuple((b, f) for b, f in m if b != a)
            if e - 2:
                rest = tuple(sorted(rest + ((a, e - 2),)))
            one = {(): Frac(1), ((SIN_OF[a], 2),): Frac(-1)}
            return pmul(one, {rest: Frac(1)})
        if e <= -2 and a in SQRT_ARG:
            rest = tuple((b, f) for b, f in m if b != a)
            if e + 2:
                rest = tuple(sorted(rest + ((a, e + 2),)))
            inv = pinv(SQRT_ARG[a])
            return pmul(inv, {rest: Frac(1)})
    return {m: Frac(1)}


def pinv(p):
    """1/p as a poly over atoms (single monomials invert, else an INV atom)"""
    if len(p) == 1:
        (m, c), = p.items()
        if c != 0:
            return {tuple((a, -e) for a, e in m): 1 / c}
    # factor out the leading coefficient so that 1/(2x+2y) and 1/(x+y) share the atom
    lead = min(p.keys())
    lc = p[lead]
    q = {m: c / lc for m, c in p.items()}
    k = "DEN(" + pkey(q) + ")"
    if k not in ATOMS:
        DEN_ARG[k] = q
        ATOMS[k] = poly_to_z3(q)
        ATOM_DEPS[k] = pdeps(q)
    return {((k, -1),): 1 / lc}


def pdeps(p):
    s = frozenset()
    for m in p:
        for a, _ in m:
            s |= ATOM_DEPS[a]
    return s


def pkey(p):
    if not p:
        return "0"
    return "+".join("%s*%s" % (p[m], "*".join("%s^%d" % (a, e) for a, e in m)) for m in sorted(p))


def pconst(c):
    c = Frac(c)
    return {(): c} if c else {}


def atom(key, term):
    if key not in ATOMS:
        ATOMS[key] = term
        fc = free_consts(term)
        ATOM_DEPS[key] = frozenset(n for n in fc if n not in GLOBAL_CONSTS)
    return {((key, 1),): Frac(1)}




def poly(t):
    """polynomial normal form of an arithmetic z3 term"""
    k = t.get_id()
    r = _polymemo.get(k)
    if r is not None:
        return r[1]
    r = _poly(t)
    _polymemo[k] = (t, r)
    return r


def _poly(t):
    if z3.is_int_value(t):
        return pconst(t.as_long())
    if z3.is_rational_value(t):
        return pconst(Frac(t.numerator_as_long(), t.denominator_as_long()))
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        r = {}
        for c in t.children():
            r = padd(r, poly(c))
        return r
    if k == z3.Z3_OP_SUB:
        ch = t.children()
        r = poly(ch[0])
        for c in ch[1:]:
            r = padd(r, poly(c), -1)
        return r
    if k == z3.Z3_OP_UMINUS:
        return padd({}, poly(t.arg(0)), -1)
    if k == z3.Z3_OP_MUL:
        r = pconst(1)
        for c in t.children():
            r = pmul(r, poly(c))
        return r
    if k == z3.Z3_OP_DIV:
        return pmul(poly(t.arg(0)), pinv_safe(poly(t.arg(1)), t.arg(1)))
    if k == z3.Z3_OP_POWER:
        e = t.arg(1)
        e = conc_int(simp(e)) if z3.is_int(e) else (int(str(simp(e))) if z3.is_rational_value(simp(e)) and simp(e).denominator_as_long() == 1 else None)
        if e is not None and 0 <= e <= 8:
            r = pconst(1)
            b = poly(t.arg(0))
            for _ in range(e):
                r = pmul(r, b)
            return r
    if k == z3.Z3_OP_TO_REAL:
        return poly(t.arg(0))
    if k == z3.Z3_OP_TO_INT and integral(t.arg(0)):
        return poly(t.arg(0))
    if k == z3.Z3_OP_ITE:
        c = t.arg(0)
        a, b = poly(t.arg(1)), poly(t.arg(2))
        if a == b:
            return a
        cs = simp(c)
        if z3.is_true(cs):
            return a
        if z3.is_false(cs):
            return b
        ck = c.decl().kind() if z3.is_app(c) else None
        if ck in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            d, e = padd(poly(c.arg(0)), poly(c.arg(1)), -1), padd(a, b, -1)
            if ck in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                d = padd({}, d, -1)
            # condition is d <= 0 (or d < 0); with d = a - b this is the minimum of a and b, with d = b - a the maximum
            for m, w in (("MIN2", e), ("MAX2", padd({}, e, -1))):
                if w == d:
                    return atom("%s(%s)" % (m, "|".join(sorted((pkey(a), pkey(b))))), t)
        key = "ITE(%s|%s|%s)" % (bkey(c), pkey(a), pkey(b))
        return atom(key, t)
    if k == z3.Z3_OP_UNINTERPRETED:
        if t.num_args() == 0:
            n = t.decl().name()
            b = BINDERS.get(n)
            if b is None:
                return atom(n, t)
        b = BINDERS.get(t.decl().name())
        if b is not None:
            return binder_poly(t, b)
        d = t.decl()
        key = "%s(%s)" % (d.name(), ",".join(akey(c) for c in t.children()))
        r = atom(key, t)
        if d.eq(SQRT) and key not in SQRT_ARG and nonneg_syn(t.arg(0)):
            SQRT_ARG[key] = poly(t.arg(0))
        if d.eq(SIN) and key not in SIN_OF:
            ck = "%s(%s)" % ("COS", akey(t.arg(0)))
            atom(ck, COS(t.arg(0)))
            SIN_OF[key] = ck
        return r
    if k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
        # (n*Q+R) div n = Q + R div n ; (n*Q+R) mod n = R mod n
        n, p = t.arg(1).as_long(), poly(t.arg(0))
        if all(c.denominator == 1 and all(e > 0 and z3.is_int(ATOMS[a]) for a, e in m) for m, c in p.items()):
            Q = {m: Frac(int(c) // n) for m, c in p.items() if int(c) // n}
            R = {m: Frac(int(c) % n) for m, c in p.items() if int(c) % n}
            isdiv = k == z3.Z3_OP_IDIV
            if not R or (len(R) == 1 and () in R):
                return Q if isdiv else R
            if Q:
                r = poly_to_z3(R)
                r = z3.ToInt(r) if not z3.is_int(r) else r
                x = atom("%s(%s,%s)" % ("div" if isdiv else "mod", pkey(R), n), r / z3.IntVal(n) if isdiv else r % z3.IntVal(n))
                return padd(x, Q) if isdiv else x
            return atom("%s(%s,%s)" % ("div" if isdiv else "mod", pkey(R), n), t)
    if k == z3.Z3_OP_MOD and z3.is_const(t.arg(1)) and t.arg(1).decl().kind() == z3.Z3_OP_UNINTERPRETED:
        # x mod N depends on x up to multiples of N only (N != 0 is an obligation of its own)
        R = mod_reduce(poly(t.arg(0)), t.arg(1))
        if R is not None:
            return R if not R else atom("modn(%s,%s)" % (pkey(R), akey(t.arg(1))), t)
    key = "%s(%s)" % (t.decl().name(), ",".join(akey(c) for c in t.children()))
    return atom(key, t)


def mod_reduce(p, n):
    """polynomial congruent to p modulo the constant n, None when p is not an integer polynomial"""
    nk = n.decl().name()
    out = {}
    for m, c in p.items():
        if c.denominator != 1 or not all(e > 0 and z3.is_int(ATOMS[a]) for a, e in m):
            return None
        if any(a == nk for a, _ in m):
            continue
        if len(m) == 1 and m[0][1] == 1:
            x = ATOMS[m[0][0]]
            if z3.is_app_of(x, z3.Z3_OP_MOD) and x.arg(1).eq(n):
                r = mod_reduce(poly(x.arg(0)), n)
                if r is not None:
                    out = padd(out, r, c)
                    continue
        out = padd(out, {m: c})
    return out


def pinv_safe(p, t):
    if not p:
        return atom("DIV0", z3.Real("DIV0!const"))
    return pinv(p)


def akey(t):
    if z3.is_bool(t):
        return bkey(t)
    if z3.is_arith(t):
        return pkey(poly(t))
    return t.sexpr()


_bk = {}


def bkey(t):
    """canonical key of a boolean term"""
    k = t.get_id()
    r = _bk.get(k)
    if r is None:
        r = (t, _bkey(t))
        _bk[k] = r
    return r[1]


def _bkey(t):
    if z3.is_true(t):
        return "T"
    if z3.is_false(t):
        return "F"
    k = t.decl().kind()
    ch = t.children()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
        a, b = ch
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        d = padd(poly(a), poly(b), -1)
        # normalise a positive scale
        if d:
            lc = abs(d[min(d.keys())])
            if lc != 0:
                d = {m: c / lc for m, c in d.items()}
        return "(%s%s0)" % (pkey(d), "<" if strict else "<=")
    if k == z3.Z3_OP_EQ and z3.is_arith(ch[0]):
        d = padd(poly(ch[0]), poly(ch[1]), -1)
        if not d:
            return "T"
        lc = d[min(d.keys())]
        d = {m: c / lc for m, c in d.items()}
        return "(%s=0)" % pkey(d)
    if k == z3.Z3_OP_DISTINCT and len(ch) == 2:
        return "!" + bkey(ch[0] == ch[1])
    if k == z3.Z3_OP_NOT:
        return "!" + bkey(ch[0])
    if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        return "%s[%s]" % ("&" if k == z3.Z3_OP_AND else "|", ";".join(sorted(set(bkey(c) for c in ch))))
    if k == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0 and t.decl().name() not in BINDERS:
        return t.decl().name()
    b = binder_of(t)
    if b is not None:
        return binder_key(t, b)
    return "%s(%s)" % (t.decl().name(), ",".join(akey(c) for c in ch))


_bmax = {}


def _bound(t, sort):
    """canonical name of the variable of the binder term t: the first index above those free in t"""
    k = t.get_id()
    r = _bmax.get(k)
    if r is None:
        n = max([int(c.split("!")[1]) + 1 for c in free_consts(t) if c.startswith("b!")], default=0)
        r = _bmax[k] = (t, n)
    return z3.Const("b!%d!%s" % (r[1], sort), sort)


def binder_key(t, b):
    lo, hi, body = open_binder(t, _bound(t, b.bvar.sort()))
    return "%s{%s;%s;%s}" % (b.kind, akey(lo), akey(hi), akey(body))


_sum_core = {}


def binder_poly(t, b):
    if b.kind != 'SUM':
        return atom(binder_key(t, b), t)
    bv = _bound(t, b.bvar.sort())
    bn = bv.decl().name()
    lo, hi, body = open_binder(t, bv)
    lop, hip = poly(lo), poly(hi)
    if lop == hip:
        return {}
    p = poly(body)
    out = {}
    groups = {}
    for m, c in p.items():
        dep = tuple((a, e) for a, e in m if bn in ATOM_DEPS[a])
        ind = tuple((a, e) for a, e in m if bn not in ATOM_DEPS[a])
        groups.setdefault(dep, {})
        groups[dep] = padd(groups[dep], {ind: c})
    for dep, coef in groups.items():
        if dep == ():
            n = padd(hip, lop, -1)
            d = n.get((), None) if len(n) <= 1 else None
            if not (n and len(n) == 1 and d is not None and d >= 0):
                # the count is max(hi-lo,0); keep it an atom unless known nonneg
                key = "CNT{%s;%s}" % (pkey(lop), pkey(hip))
                term = z3.ToReal(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
                n = atom(key, term)
            core = n
        else:
            bodyk = pkey({dep: Frac(1)})
            key = "SUM{%s;%s;%s}" % (pkey(lop), pkey(hip), bodyk)
            core = _sum_core.get(key)
            if core is None:
                term = make_binder('SUM', bv, lo, hi, poly_to_z3({dep: Frac(1)}), REAL)
                if _bound(term, b.bvar.sort()).eq(bv):
                    core = atom(key, term)
                else:                       # fewer variables of outer binders than before: rename
                    core = poly(term)
                _sum_core[key] = core
        out = padd(out, pmul(coef, core))
    return out


def poly_to_z3(p, as_int=False):
    if not p:
        return z3.RealVal(0)
    terms = []
    for m in sorted(p):
        c = p[m]
        fs, ds = [], []
        for a, e in m:
            x = ATOMS[a]
            if z3.is_int(x):
                x = z3.ToReal(x)
            for _ in range(abs(e)):
                (fs if e > 0 else ds).append(x)
        r = None
        for f in fs:
            r = f if r is None else r * f
        if r is None:
            r = z3.RealVal(c)
        elif c != 1:
            r = z3.RealVal(c) * r
        for d in ds:
            r = r / d
        terms.append(r)
    r = terms[0]
    for x in terms[1:]:
        r = r + x
    return r


def poly_eq(a, b):
    """syntactic equality after normalisation"""
    try:
        return not padd(poly(a), poly(b), -1)
    except PolyTooBig:
        return False


def show(t, depth=0):
    """readable text with binders expanded (debugging and reports)"""
    apps = [x for x in subterms(t) if z3.is_app(x) and binder_of(x) is not None]
    if not apps or depth > 5:
        return str(t)
    subs = []
    for x in apps:
        b = binder_of(x)
        v = z3.Int("v%d_%d" % (depth, len(subs)))
        lo, hi, body = open_binder(x, v)
        txt = "%s{%s in [%s,%s): %s}" % (b.kind, v, show(lo, depth + 1), show(hi, depth + 1), show(body, depth + 1))
        subs.append((x, z3.Const("\x01%d\x02" % x.get_id(), x.sort()), txt))
    s = str(z3.substitute(t, *[(a, c) for a, c, _ in subs]))
    for a, c, txt in subs:
        s = s.replace(c.decl().name(), txt)
    return s
