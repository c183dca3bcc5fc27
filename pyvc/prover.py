"""The prover: facts + goal -> valid / unknown.  z3 first, cvc5 as second back end."""
import time, itertools, math
import z3
from .terms import *
from . import terms as T


class Stats:
    def __init__(self):
        self.queries = 0
        self.z3_time = 0.0
        self.cvc5_time = 0.0
        self.by = {}

    def count(self, how):
        self.by[how] = self.by.get(how, 0) + 1


STATS = Stats()


class Schema:
    """universally quantified fact, instantiated on index terms: fn(*idx) -> z3 Bool"""
    def __init__(self, arity, fn, name=""):
        self.arity, self.fn, self.name = arity, fn, name


class Ctx:
    def __init__(self, facts=(), schemas=()):
        self.facts = list(facts)
        self.schemas = list(schemas)

    def extended(self, *more):
        return Ctx(self.facts + [m for m in more if not z3.is_true(m)], self.schemas)


clock = time.process_time           # a loaded machine must not change what is proved


def limit(s, ms):
    """bound the work of the solver by its own step counter; the time is only a backstop"""
    s.set("rlimit", int(ms * 3000))
    s.set("timeout", int(ms * 4))


def _check(facts, goal, timeout):
    s = z3.Solver()
    limit(s, timeout)
    for f in facts:
        s.add(f)
    s.add(Not(goal))
    t = clock()
    r = s.check()
    STATS.queries += 1
    STATS.z3_time += clock() - t
    return r, s


# ---------------------------------------------------------------- axiom instances
_inner = {}


def inner_terms(x):
    """subterms of a binder body that do not depend on the bound variable"""
    k = x.get_id()
    r = _inner.get(k)
    if r is None:
        b = binder_of(x)
        bv = FreshInt("inner") if z3.is_int(b.bvar) else z3.Const(fresh_name("inner"), b.bvar.sort())
        bvid = bv.get_id()
        _, _, body = open_binder(x, bv)
        out = [y for y in subterms(body) if z3.is_app(y) and y.num_args() and (binder_of(y) is not None or y.decl().eq(SQRT)) and bvid not in const_ids(y)]
        out += [y for y in subterms(body) if z3.is_const(y) and binder_of(y) is not None]
        for y in subterms(body):
            if z3.is_app(y) and y.num_args() and bvid in const_ids(y) and binder_of(y) is not None:
                for z in inner_terms(y):
                    if bvid not in const_ids(z) and not any(z.eq(o) for o in out):
                        out.append(z)
        r = _inner[k] = (x, out)
    return r[1]


_innerix = {}


def inner_indices(x):
    """index arguments inside a binder body that do not depend on the bound variable"""
    k = x.get_id()
    r = _innerix.get(k)
    if r is None:
        b = binder_of(x)
        bv = FreshInt("inner") if z3.is_int(b.bvar) else z3.Const(fresh_name("inner"), b.bvar.sort())
        bvid = bv.get_id()
        _, _, body = open_binder(x, bv)
        out = []
        for y in subterms(body):
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() and binder_of(y) is None:
                for c in y.children():
                    if z3.is_int(c) and c.num_args() and bvid not in const_ids(c) and not any(c.eq(o) for o in out):
                        out.append(c)
        r = _innerix[k] = (x, out[:6])
    return r[1]


def collect(ts):
    seen = set()
    for t in ts:
        work = [t]
        while work:
            u = work.pop()
            for x in subterms(u, seen):
                yield x
                if z3.is_app(x) and binder_of(x) is not None:
                    work += inner_terms(x)


def index_terms(ts, limit=12):
    pri, sec, ter = [], [], []
    for x in collect(ts):
        if not z3.is_int(x):
            continue
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            if n in T.BINDERS:
                pri.append(x)
            elif '!' in n:
                pri.append(x)
            else:
                ter.append(x)
        else:
            b = binder_of(x)
            if b is not None and b.kind in ('ARGMIN', 'ARGMAX', 'FIRST', 'LARGMIN'):
                pri.append(x)
                if b.kind == 'FIRST':
                    sec.append(x - 1)
            elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0:
                pass
    # arguments of uninterpreted functions are natural instantiation points
    for x in collect(ts):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() > 0 and binder_of(x) is None:
            for c in x.children():
                if z3.is_int(c) and not any(c.eq(p) for p in pri + sec + ter):
                    sec.append(c)
        elif z3.is_app(x) and binder_of(x) is not None:
            for c in inner_indices(x):
                if not any(c.eq(p) for p in pri + sec + ter):
                    ter.append(c)
    out = []
    for x in pri + sec + ter:
        if not any(x.eq(y) for y in out):
            out.append(x)
        if len(out) >= limit:
            break
    return out


_pfx = {}
_pfxof = {}


def prefix_fn(x, b):
    """(P, shift): SUM over [lo,hi) of the body is P(hi+shift) - P(lo+shift) whenever lo <= hi.
    P is an uninterpreted prefix sum, one for every body up to a shift of the index."""
    r = _pfxof.get(x.get_id())
    if r is not None:
        return r[1]
    r = _prefix_fn(x, b)
    _pfxof[x.get_id()] = (x, r)
    return r


def _prefix_fn(x, b):
    from .terms import _bound
    bv = _bound(x, b.bvar.sort())
    bn = bv.decl().name()
    try:
        _, _, body = open_binder(x, bv)
        rests = {}
        for y in subterms(body):
            if z3.is_app(y) and y.decl().kind() == z3.Z3_OP_UNINTERPRETED and y.num_args() and binder_of(y) is None:
                for c in y.children():
                    if z3.is_int(c) and bv.get_id() in const_ids(c):
                        p = dict(poly(c))
                        m = ((bn, 1),)
                        cf = p.pop(m, None)
                        if not cf or any(bn in T.ATOM_DEPS[a] for mm in p for a, _ in mm):
                            continue
                        p = {mm: v / cf for mm, v in p.items()}
                        rests[pkey(p)] = p
        sh = z3.IntVal(0)
        if rests:
            p = rests[min(rests)]
            if p and all(q.denominator == 1 and all(e > 0 and z3.is_int(ATOMS[a]) for a, e in m) for m, q in p.items()):
                sh = z3.simplify(z3.ToInt(poly_to_z3(p)))
                _, _, body = open_binder(x, z3.simplify(bv - sh))
        key = akey(body)
    except PolyTooBig:
        return None
    if key not in _pfx:
        _pfx[key] = z3.Function("PFX!%d" % len(_pfx), INT, REAL)
    return _pfx[key], sh


def is_ten(t):
    t = z3.simplify(t)
    return z3.is_rational_value(t) and t.as_fraction() == 10


def binder_axioms(x, b, idx):
    out = []
    if b.kind == 'SUM':
        k = FreshInt("q")
        lo, hi, body = open_binder(x, k)
        out.append(z3.Implies(hi <= lo, x == 0))
        pf = prefix_fn(x, b)
        if pf is not None:
            P, sh = pf
            out.append(z3.Implies(lo <= hi, x == P(hi + sh) - P(lo + sh)))
            _, _, bl = open_binder(x, lo)
            _, _, bh = open_binder(x, z3.simplify(hi - 1))
            out.append(P(lo + sh + 1) - P(lo + sh) == bl)
            out.append(P(hi + sh) - P(hi + sh - 1) == bh)
        if z3.is_real(body) and nonneg_syn(body) or z3.is_real(body) and zero_one(body):
            out.append(x >= 0)
            if not zero_one(body):
                for t in idx:
                    _, _, bt = open_binder(x, t)
                    out.append(z3.Implies(And(lo <= t, t < hi), x >= bt))
        if z3.is_real(body) and zero_one(body):
            out.append(z3.Implies(hi >= lo, x <= z3.ToReal(hi - lo)))
            if x.num_args() or True:
                # a 0/1 sum is zero only if every term is, and full only if every term is one
                for t in idx:
                    _, _, bt = open_binder(x, t)
                    out.append(z3.Implies(And(lo <= t, t < hi), x >= bt))
        return out
    at0 = z3.IntVal(0)
    lo, hi, _ = open_binder(x, at0)
    if b.kind in ('MIN', 'MAX'):
        for t in idx:
            _, _, bt = open_binder(x, t)
            out.append(z3.Implies(And(lo <= t, t < hi), x <= bt if b.kind == 'MIN' else x >= bt))
        arg = sibling(x, 'ARGMIN' if b.kind == 'MIN' else 'ARGMAX')
        _, _, ba = open_binder(x, arg)
        out.append(z3.Implies(lo < hi, And(lo <= arg, arg < hi, x == ba)))
        out += binder_axioms(arg, binder_of(arg), idx)
    elif b.kind in ('ARGMIN', 'ARGMAX', 'LARGMIN'):
        _, _, ba = open_binder(x, x)
        out.append(z3.Implies(lo < hi, And(lo <= x, x < hi)))
        for t in idx:
            if t.eq(x):
                continue
            _, _, bt = open_binder(x, t)
            if b.kind == 'ARGMIN':
                c = And(ba <= bt, z3.Implies(t < x, ba < bt))
            elif b.kind == 'LARGMIN':
                c = And(ba <= bt, z3.Implies(t > x, ba < bt))
            else:
                c = And(ba >= bt, z3.Implies(t < x, ba > bt))
            out.append(z3.Implies(And(lo <= t, t < hi), c))
    elif b.kind == 'FIRST':
        _, _, bx = open_binder(x, x)
        out.append(z3.Implies(lo <= hi, And(lo <= x, x <= hi)))
        out.append(z3.Implies(And(lo <= x, x < hi), bx))
        for t in idx:
            _, _, bt = open_binder(x, t)
            out.append(z3.Implies(And(lo <= t, t < x, t < hi), Not(bt)))
    elif b.kind == 'ANY':
        for t in idx:
            _, _, bt = open_binder(x, t)
            out.append(z3.Implies(And(lo <= t, t < hi, bt), x))
        w = sibling(x, 'FIRST')
        _, _, bw = open_binder(x, w)
        out.append(z3.Implies(x, And(lo <= w, w < hi, bw)))
    return out


def zero_one(t):
    """syntactically in {0,1} or [0,1]"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        s = str(t)
        return s in ('0', '1')
    if z3.is_app_of(t, z3.Z3_OP_ITE):
        return zero_one(t.arg(1)) and zero_one(t.arg(2))
    if z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        return zero_one(t.arg(0))
    return False


def sibling(x, kind):
    """binder of another kind over the same range and body"""
    k = FreshInt("m")
    lo, hi, body = open_binder(x, k)
    sort = INT if kind in ('ARGMIN', 'ARGMAX', 'FIRST', 'LARGMIN') else body.sort()
    return make_binder(kind, k, lo, hi, body, sort)


def axioms_for(ts, ctx, idx=None, rounds=2):
    """ground axiom instances for the special symbols in ts"""
    out, seen_apps = [], set()
    work = list(ts)
    if idx is None:
        idx = index_terms(ts)
    for rnd in range(rounds):
        new = []
        divs = []
        sq, lg, ex = [], [], []
        for x in list(collect(work)):
            i = x.get_id()
            if i in seen_apps or not z3.is_app(x):
                continue
            k = x.decl().kind()
            if k == z3.Z3_OP_UNINTERPRETED:
                b = binder_of(x)
                if b is not None:
                    seen_apps.add(i)
                    T._keep.append(x)
                    new += binder_axioms(x, b, idx)
                elif x.num_args() == 1:
                    d = x.decl()
                    a = x.arg(0)
                    if d.eq(SQRT):
                        seen_apps.add(i); T._keep.append(x)
                        new.append(z3.Implies(a >= 0, And(x >= 0, x * x == a)))
                        if nonneg_syn(a):
                            new.append(x >= 0)
                        new.append(z3.Implies(a > 0, x > 0))
                        sq.append(x)
                    elif d.eq(COS) or d.eq(SIN):
                        seen_apps.add(i); T._keep.append(x)
                        c, s = COS(a), SIN(a)
                        new.append(c * c + s * s == 1)
                        new.append(z3.Implies(a == 0, And(c == 1, s == 0)))
                    elif d.eq(EXP):
                        seen_apps.add(i); T._keep.append(x)
                        new.append(x > 0)
                        new.append(z3.Implies(a <= 0, x <= 1))
                        new.append(z3.Implies(a >= 0, x >= 1))
                        if z3.is_app(a) and a.decl().eq(LOG):
                            new.append(z3.Implies(a.arg(0) > 0, x == a.arg(0)))
                        ex.append(x)
                    elif d.eq(LOG) or d.eq(LOG2) or d.eq(LOG10):
                        seen_apps.add(i); T._keep.append(x)
                        new.append(z3.Implies(a >= 1, x >= 0))
                        new.append(z3.Implies(And(a > 0, a <= 1), x <= 0))
                        if d.eq(LOG) and z3.is_app(a) and a.decl().eq(EXP):
                            new.append(x == a.arg(0))
                        if d.eq(LOG10) and z3.is_app(a) and a.decl().eq(POW) and is_ten(a.arg(0)):
                            new.append(x == a.arg(1))
                        lg.append(x)
                elif x.num_args() == 2 and x.decl().eq(POW) and is_ten(x.arg(0)):
                    seen_apps.add(i); T._keep.append(x)
                    new.append(x > 0)
                    e = z3.simplify(x.arg(1))
                    if z3.is_app(e) and e.decl().eq(LOG10):
                        new.append(z3.Implies(e.arg(0) > 0, x == e.arg(0)))
            elif k in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD):
                seen_apps.add(i); T._keep.append(x)
                a, b = x.arg(0), x.arg(1)
                if not z3.is_int_value(b):
                    q = a / b
                    new.append(z3.Implies(b > 0, And(b * q <= a, a < b * q + b)))
                    new.append(z3.Implies(And(b > 0, a >= 0), q >= 0))
                    if k == z3.Z3_OP_MOD:
                        new.append(z3.Implies(b > 0, And(x == a - b * q, x >= 0, x < b)))
        for p, q in itertools.combinations(sq, 2):
            new.append(z3.Implies(And(p.arg(0) >= 0, q.arg(0) >= 0), And((p < q) == (p.arg(0) < q.arg(0)), (p == q) == (p.arg(0) == q.arg(0)))))
        for p, q in itertools.combinations(ex[:6], 2):
            new.append(And((p < q) == (p.arg(0) < q.arg(0)), (p == q) == (p.arg(0) == q.arg(0))))
        for p, q in itertools.combinations(lg[:8], 2):
            if p.decl().eq(q.decl()):
                new.append(z3.Implies(And(p.arg(0) > 0, q.arg(0) > 0), (p < q) == (p.arg(0) < q.arg(0))))
        if not new:
            break
        out += new
        work = new
        if rnd == 0:
            idx = list(idx)
            for t in index_terms(new, 8):
                if not any(t.eq(y) for y in idx) and len(idx) < 14:
                    idx.append(t)
    for s in ctx.schemas:
        if s.arity == 0:
            out.append(s.fn())
        elif s.arity == 1:
            for t in idx:
                out.append(s.fn(t))
        else:
            for tt in itertools.product(idx[:8], repeat=s.arity):
                out.append(s.fn(*tt))
    out += mod_axioms(ts)
    # PI
    for x in collect(ts):
        if x.eq(PI):
            out.append(And(PI > z3.RealVal("3.14159"), PI < z3.RealVal("3.1416")))
            break
    return out


def mod_axioms(ts):
    """X == Y mod N when both are congruent and X lies in [0, N), for index terms X, Y of the same function"""
    args, mods = {}, {}
    for x in collect(ts):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args() and binder_of(x) is None:
            for i, c in enumerate(x.children()):
                if z3.is_int(c):
                    args.setdefault((x.decl().name(), i), {})[c.get_id()] = c
                    if z3.is_app_of(c, z3.Z3_OP_MOD) and z3.is_const(c.arg(1)) and not z3.is_int_value(c.arg(1)):
                        mods.setdefault((x.decl().name(), i), {})[c.get_id()] = c
    out, done = [], set()
    for k, ms in mods.items():
        for m in ms.values():
            n = m.arg(1)
            for c in args[k].values():
                if c.eq(m) or (c.get_id(), m.get_id()) in done or len(out) > 40:
                    continue
                done.add((c.get_id(), m.get_id()))
                try:
                    if T.mod_reduce(padd(poly(c), poly(m.arg(0)), -1), n) == {}:
                        out.append(z3.Implies(And(c >= 0, c < n), c == m))
                except PolyTooBig:
                    pass
    return out


def product_lemmas(facts, goal, limit=40):
    """(e - f) * b >= 0 for inequality facts f <= e and positive multiplicands b"""
    mults = []
    for x in collect(facts + [goal]):
        if z3.is_mul(x) and z3.is_int(x):
            ch = [c for c in x.children() if not z3.is_int_value(c)]
            if len(ch) >= 2:
                for c in ch:
                    if not any(c.eq(y) for y in mults):
                        mults.append(c)
        if z3.is_app_of(x, z3.Z3_OP_IDIV) and not z3.is_int_value(x.arg(1)):
            if not any(x.arg(1).eq(y) for y in mults):
                mults.append(x.arg(1))
    if not mults:
        return []
    ineq = []
    for f in facts + [Not(goal)]:
        for g in conjuncts(f):
            neg = False
            if z3.is_not(g):
                g, neg = g.arg(0), True
            k = g.decl().kind() if z3.is_app(g) else None
            if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and z3.is_int(g.arg(0)):
                a, b = g.arg(0), g.arg(1)
                if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    a, b = b, a
                strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
                if neg:
                    a, b, strict = b, a, not strict
                # a < b or a <= b
                ineq.append((b - a - 1) if strict else (b - a))
    out = []
    for d in ineq:
        fc = set(free_consts(d))
        for m in mults:
            out.append(z3.Implies(m > 0, z3.Implies(d >= 0, d * m >= 0)))
            if len(out) >= limit:
                return out
    return out


def conjuncts(f):
    if z3.is_and(f):
        for c in f.children():
            yield from conjuncts(c)
    else:
        yield f


# ---------------------------------------------------------------- binder matching
def binder_apps(ts):
    out, ids = [], set()
    for x in collect(ts):
        b = binder_of(x)
        if b is not None and x.get_id() not in ids:
            ids.add(x.get_id())
            out.append((x, b))
    return out


def match_binders(goal, ctx, depth, deadline, tried, extra=()):
    """equalities between binder applications that are pointwise equal under the context"""
    apps = binder_apps([goal])
    eqs = []
    rep = {}
    more = binder_apps(list(extra)) if extra else []
    pairs = [(x, y, bx) for (x, bx), (y, by) in itertools.chain(itertools.combinations(apps, 2), (q for q in itertools.product(apps, more) if same_range(q[0][0], q[1][0]))) if bx.kind == by.kind and not x.eq(y) and x.sort() == y.sort()]
    apps = apps + more
    syms = {x.get_id(): body_symbols(x) for x, _ in apps}
    for x, y, bx in sorted(pairs, key=lambda p: syms[p[0].get_id()] != syms[p[1].get_id()]):
        if clock() > deadline:
            break
        if syms[x.get_id()] != syms[y.get_id()] and not SPLIT[0]:
            break
        key = (x.get_id(), y.get_id())
        if key in tried:
            if tried[key]:
                eqs.append(x == y)
            continue
        ok = binder_equal(x, y, bx, ctx, depth, deadline)
        T._keep.extend([x, y])
        tried[key] = ok
        if ok:
            eqs.append(x == y)
    return eqs


def same_range(x, y):
    k = z3.Const("names!", binder_of(x).bvar.sort())
    (l1, h1, _), (l2, h2, _) = open_binder(x, k), open_binder(y, k)
    return poly_eq(l1, l2) and poly_eq(h1, h2)


def body_symbols(x):
    """names of the functions of the program that a binder body mentions"""
    return frozenset(t.decl().name() for t in collect([x]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and binder_of(t) is None) | \
        _names_in(x)


_bn = {}


def _names_in(x):
    r = _bn.get(x.get_id())
    if r is None:
        _, _, body = open_binder(x, z3.Const("names!", binder_of(x).bvar.sort()))
        out = set()
        for t in subterms(body):
            if z3.is_app(t) and t.num_args() and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                if binder_of(t) is None:
                    out.add(t.decl().name())
                else:
                    out |= _names_in(t)
        r = _bn[x.get_id()] = (x, frozenset(out))
    return r[1]


def binder_equal(x, y, b, ctx, depth, deadline):
    k = FreshInt("j")
    lo1, hi1, b1 = open_binder(x, k)
    lo2, hi2, b2 = open_binder(y, k)
    if b1.sort() != b2.sort():
        return False
    # equal modulo a shift of the index
    if not poly_eq(lo1, lo2):
        sh = simp(lo2 - lo1)
        _, _, b2 = open_binder(y, k + sh)
        if b.kind != 'SUM':
            return False
        if not poly_eq(hi2 - sh, hi1) and not quick(ctx, hi2 - sh == hi1):
            return False
        lo2, hi2 = lo1, hi1
    if not poly_eq(hi1, hi2) and not quick(ctx, z3.Or(hi1 == hi2, And(hi1 <= lo1, hi2 <= lo2))):
        return False
    if z3.is_arith(b1):
        if poly_eq(b1, b2):
            return True
    elif bkey(b1) == bkey(b2):
        return True
    if depth > 3:
        return False
    c2 = ctx.extended(lo1 <= k, k < hi1)
    g = b1 == b2
    return _prove(c2, g, depth + 1, min(deadline, clock() + 6), budget=3000) is not None


def quick(ctx, goal, timeout=1500):
    g = z3.simplify(goal)
    if z3.is_true(g):
        return True
    if z3.is_false(g):
        return False
    facts = ctx.facts
    ax = axioms_for(facts + [goal], ctx, rounds=1)
    if lin_check(facts + ax, goal, timeout):
        return True
    r, _ = _check(facts + ax, goal, timeout)
    if r == z3.unsat:
        return True
    if r == z3.unknown:
        pl = product_lemmas(facts + ax, goal)
        if pl:
            r, _ = _check(facts + ax + pl, goal, timeout)
            return r == z3.unsat
    return False


# ---------------------------------------------------------------- normalisation of a formula
def normalise(t, memo):
    """rewrite arithmetic atoms of a boolean term through the polynomial normal form"""
    def atomrw(x):
        k = x.decl().kind() if z3.is_app(x) else None
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) and x.num_args() == 2 and z3.is_arith(x.arg(0)):
            if not any(binder_of(y) is not None for y in subterms(x)):
                return x
            d = padd(poly(x.arg(0)), poly(x.arg(1)), -1)
            z = poly_to_z3(d)
            f = {z3.Z3_OP_EQ: lambda: z == 0, z3.Z3_OP_LE: lambda: z <= 0, z3.Z3_OP_LT: lambda: z < 0,
                 z3.Z3_OP_GE: lambda: z >= 0, z3.Z3_OP_GT: lambda: z > 0}[k]()
            return f
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_ITE and z3.is_bool(x)) or (k == z3.Z3_OP_EQ and z3.is_bool(x.arg(0))):
            ch = [atomrw(c) for c in x.children()]
            return rebuild(x, ch)
        return x
    return atomrw(t)


# ---------------------------------------------------------------- linearisation
_lin_const = {}


def _lconst(key, sort):
    k = (key, str(sort))
    c = _lin_const.get(k)
    if c is None:
        c = _lin_const[k] = z3.Const("lin!%d" % len(_lin_const), sort)
    return c


class Lin:
    """replaces every nonlinear monomial (in polynomial normal form) by a constant named after it"""
    def __init__(self):
        self.side, self.memo, self.seen = [], {}, set()

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.atom(m[0][0])
        c = _lconst("M%r" % (m,), REAL)
        if m not in self.seen:
            self.seen.add(m)
            if all(e % 2 == 0 for _, e in m):
                self.side.append(c >= 0)
        return c

    def atom(self, a):
        t = ATOMS[a]
        if ("a", a) in self.memo:
            return self.memo[("a", a)]
        r = None
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and binder_of(t) is None:
            r = t
        elif z3.is_app_of(t, z3.Z3_OP_ITE):
            r = _lconst("A" + a, t.sort())
            self.memo[("a", a)] = r
            c = self.form(t.arg(0))
            self.side.append(z3.If(c, self.eq(r, t.arg(1)), self.eq(r, t.arg(2))))
        elif z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and binder_of(t) is None:
            ch = [self.form(c) if z3.is_bool(c) else (self.term(c) if z3.is_arith(c) else c) for c in t.children()]
            r = t.decl()(*ch)
        else:
            r = _lconst("A" + a, t.sort())
            if z3.is_app(t) and t.decl().kind() in (z3.Z3_OP_IDIV, z3.Z3_OP_MOD) and z3.is_int_value(t.arg(1)) and t.arg(1).as_long() > 0:
                n = t.arg(1).as_long()
                x = self.term(t.arg(0))
                if t.decl().kind() == z3.Z3_OP_IDIV:
                    self.side.append(And(n * r <= x, x < n * r + n))
                else:
                    self.side.append(And(r >= 0, r < n, r == x % n))
        self.memo[("a", a)] = r
        return r

    def lin(self, p):
        """linear z3 term of a polynomial; Int sort when everything is integral"""
        ints = all(c.denominator == 1 for c in p.values())
        xs = []
        for m, c in p.items():
            if m == ():
                xs.append((c, None))
                continue
            v = self.mono(m)
            if not z3.is_int(v):
                ints = False
            xs.append((c, v))
        if not xs:
            return z3.IntVal(0)
        out = []
        for c, v in xs:
            k = z3.IntVal(int(c)) if ints else z3.RealVal(c)
            if v is None:
                out.append(k)
            else:
                if not ints and z3.is_int(v):
                    v = z3.ToReal(v)
                out.append(v if c == 1 else k * v)
        return out[0] if len(out) == 1 else z3.Sum(out)

    def term(self, t):
        """linearised term of the same sort"""
        r = self.lin(poly(t))
        if z3.is_int(t) and not z3.is_int(r):
            return _lconst("I" + pkey(poly(t)), INT)
        if not z3.is_int(t) and z3.is_int(r):
            return z3.ToReal(r)
        return r

    def eq(self, c, t):
        x = self.lin(poly(t))
        if z3.is_int(c) != z3.is_int(x):
            c = z3.ToReal(c) if z3.is_int(c) else c
            x = z3.ToReal(x) if z3.is_int(x) else x
        return c == x

    def form(self, t):
        k = ("f", t.get_id())
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = self._form(t)
            T._keep.append(t)
        return r

    def _form(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if z3.is_quantifier(t):
            return z3.BoolVal(True) if False else _lconst("Q" + t.sexpr(), BOOL)
        k = t.decl().kind()
        ch = t.children()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and z3.is_arith(ch[0]):
            d = padd(poly(ch[0]), poly(ch[1]), -1)
            if d:
                # scale to integer coefficients
                l = 1
                for c in d.values():
                    l = l * c.denominator // math.gcd(l, c.denominator)
                d = {m: c * l for m, c in d.items()}
            x = self.lin(d)
            if k == z3.Z3_OP_DISTINCT:
                return x != 0
            return {z3.Z3_OP_LE: lambda: x <= 0, z3.Z3_OP_LT: lambda: x < 0, z3.Z3_OP_GE: lambda: x >= 0,
                    z3.Z3_OP_GT: lambda: x > 0, z3.Z3_OP_EQ: lambda: x == 0}[k]()
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.form(ch[0]))
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            c = [self.form(x) for x in ch]
            return z3.And(*c) if k == z3.Z3_OP_AND else z3.Or(*c)
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.form(ch[0]), self.form(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.form(x) for x in ch])
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(ch) == 2 and z3.is_bool(ch[0]):
            e = self.form(ch[0]) == self.form(ch[1])
            return z3.Not(e) if k == z3.Z3_OP_DISTINCT else e
        if k == z3.Z3_OP_UNINTERPRETED and not ch and binder_of(t) is None:
            return t
        return _lconst("B" + bkey(t), BOOL)


def lin_check(facts, goal, timeout):
    """True if valid after linearisation"""
    try:
        L = Lin()
        ff = [L.form(f) for f in facts]
        g = L.form(goal)
    except PolyTooBig:
        return False
    r, _ = _check(ff + L.side, g, timeout)
    return r == z3.unsat


# ---------------------------------------------------------------- prove
def lift_ite(goal):
    return goal


def prove(ctx, goal, timeout=30.0, use_cvc5=True):
    """returns the name of the method that discharged the goal, or None"""
    deadline = clock() + timeout
    r = _prove(ctx, goal, 0, deadline)
    if r is None and needs_prune(goal):
        SPLIT[0] = True
        try:
            r = _prove(ctx, goal, 0, max(deadline, clock() + timeout))
        finally:
            SPLIT[0] = False
        r = r and r + "+split"
    if r is None and use_cvc5 and clock() < deadline + 10:
        facts = relevant(ctx.facts, goal)
        ax = axioms_for(facts + [goal], ctx)
        if cvc5_check(facts + ax + product_lemmas(facts + ax, goal), goal, 8000):
            r = 'cvc5'
    if r is not None:
        STATS.count(r)
    return r


def relevant(facts, goal):
    return facts


class Pruner:
    """contextual simplification: conditions of if-then-else terms that the facts (and the ranges of enclosing
    binders and the enclosing conditions) decide are removed, inside binder bodies too"""
    def __init__(self, facts, deadline, split=False):
        self.split = split
        self.s = z3.Solver()
        limit(self.s, 150)
        for f in facts:
            self.s.add(f)
        self.deadline = deadline
        self.memo = [{}]
        self.dec = [{}]
        self.n = 0

    def push(self, *fs):
        self.s.push()
        for f in fs:
            self.s.add(f)
        self.memo.append({})
        self.dec.append({})

    def pop(self):
        self.s.pop()
        self.memo.pop()
        self.dec.pop()

    def decide(self, c):
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = c.get_id()
        for d in self.dec:
            if k in d and (d is self.dec[-1] or d[k][1] is not None):
                return d[k][1]
        v = None
        if clock() < self.deadline:
            t0 = clock()
            for neg in (True, False):
                self.s.push()
                self.s.add(Not(c) if neg else c)
                r = self.s.check()
                self.s.pop()
                STATS.queries += 1
                if r == z3.unsat:
                    v = neg
                    break
            STATS.z3_time += clock() - t0
        self.dec[-1][k] = (c, v)
        return v

    def cond(self, c):
        v = self.decide(c)
        if v is not None:
            return z3.BoolVal(v)
        if z3.is_and(c) or z3.is_or(c):
            keep = []
            for x in c.children():
                y = self.cond(x)
                keep.append(y)
            return And(*keep) if z3.is_and(c) else Or(*keep)
        if z3.is_not(c):
            return Not(self.cond(c.arg(0)))
        return self.go(c)

    def go(self, t):
        k = t.get_id()
        r = self.memo[-1].get(k)
        if r is None:
            r = self.memo[-1][k] = (t, self._go(t))
        return r[1]

    def threshold(self, body, bv, lo, hi):
        """where a condition inside the body of a sum changes with the index, if the facts place it in the range"""
        if not needs_prune(body):
            return None
        bn = bv.decl().name()
        for x in subterms(body):
            if not (z3.is_app_of(x, z3.Z3_OP_ITE) and not z3.is_bool(x)):
                continue
            for c in subterms(x.arg(0)):
                k = c.decl().kind() if z3.is_app(c) else None
                if k not in (z3.Z3_OP_LT, z3.Z3_OP_LE, z3.Z3_OP_GT, z3.Z3_OP_GE, z3.Z3_OP_EQ) or not z3.is_int(c.arg(0)) or bv.get_id() not in const_ids(c):
                    continue
                try:
                    p = dict(T.padd(poly(c.arg(0)), poly(c.arg(1)), -1))
                except PolyTooBig:
                    continue
                q = p.pop(((bn, 1),), 0)
                if abs(q) != 1 or any(bn in T.ATOM_DEPS[a] for m in p for a, _ in m):
                    continue
                if not all(v.denominator == 1 and all(e > 0 and z3.is_int(ATOMS[a]) for a, e in m) for m, v in p.items()):
                    continue
                # q*bv + p <op> 0  <=>  bv <op'> -q*p
                at = z3.simplify(z3.ToInt(poly_to_z3({m: -q * v for m, v in p.items()}))) if p else z3.IntVal(0)
                if k == z3.Z3_OP_EQ:
                    cand = [at, z3.simplify(at + 1)]
                elif (k in (z3.Z3_OP_LT, z3.Z3_OP_GE)) == (q == 1):
                    cand = [at]                     # bv < at or bv >= at
                else:
                    cand = [z3.simplify(at + 1)]
                if all(self.decide(And(lo <= v, v <= hi)) for v in cand):
                    if not any(self.decide(Or(v == lo, v == hi)) for v in cand) or k == z3.Z3_OP_EQ:
                        return cand
        return None

    def _go(self, t):
        if not z3.is_app(t):
            return t
        b = binder_of(t)
        if b is not None:
            ch = t.children()
            nch = [self.go(c) for c in ch]
            if any(not x.eq(y) for x, y in zip(ch, nch)):
                t = t.decl()(*nch)
            if not needs_prune(t) or clock() > self.deadline:
                return t
            bv = z3.Const(fresh_name("pb"), b.bvar.sort())
            lo, hi, body = open_binder(t, bv)
            nlo, nhi = self.go(lo), self.go(hi)
            self.push(lo <= bv, bv < hi)
            try:
                nb = self.go(body)
            finally:
                self.pop()
            at = lambda q: nb if q.eq(bv) else z3.substitute(nb, (bv, q))
            sp = self.threshold(nb, bv, nlo, nhi) if self.split and b.kind == 'SUM' else None
            if sp is not None:
                parts = [self.go(SumT(l, h, at)) for l, h in zip([nlo] + sp, sp + [nhi])]
                return z3.Sum(parts)
            if nb.eq(body) and nlo.eq(lo) and nhi.eq(hi):
                return t
            if b.kind == 'SUM':
                return SumT(nlo, nhi, at)
            if b.kind in ('MIN', 'MAX', 'ARGMIN', 'ARGMAX', 'LARGMIN'):
                return make_binder(b.kind, bv, nlo, nhi, nb, b.sort)
            return make_binder(b.kind, bv, nlo, nhi, nb, b.sort)
        ch = t.children()
        if not ch:
            return t
        if z3.is_app_of(t, z3.Z3_OP_ITE) and not z3.is_bool(t):
            c = self.cond(ch[0])
            if z3.is_true(c):
                return self.go(ch[1])
            if z3.is_false(c):
                return self.go(ch[2])
            x, y = ch[1], ch[2]
            if needs_prune(x):
                self.push(ch[0])
                x = self.go(x)
                self.pop()
            if needs_prune(y):
                self.push(Not(ch[0]))
                y = self.go(y)
                self.pop()
            return zite(c, x, y)
        nch = [self.go(c) for c in ch]
        if z3.is_app_of(t, z3.Z3_OP_MOD) and not z3.is_int_value(ch[1]):
            x, n = nch
            try:
                r = T.mod_reduce(poly(x), n) if z3.is_const(n) else None
            except PolyTooBig:
                r = None
            if r is not None:
                x = z3.simplify(z3.ToInt(poly_to_z3(r))) if r else z3.IntVal(0)
            if self.decide(And(0 <= x, x < n)):
                return x
            return x % n
        if all(x.eq(y) for x, y in zip(ch, nch)):
            return t
        return rebuild(t, nch)


_np = {}


def needs_prune(t):
    """contains an if-then-else (also inside binder bodies)"""
    k = t.get_id()
    r = _np.get(k)
    if r is None:
        v = False
        if z3.is_app(t):
            if z3.is_app_of(t, z3.Z3_OP_ITE) or z3.is_app_of(t, z3.Z3_OP_MOD) and not z3.is_int_value(t.arg(1)):
                v = True
            else:
                b = binder_of(t)
                if b is not None:
                    v = needs_prune(b.body) or needs_prune(b.lo) or needs_prune(b.hi)
                v = v or any(needs_prune(c) for c in t.children())
        r = _np[k] = (t, v)
    return r[1]


SPLIT = [False]


def prune(ctx, goal):
    if not needs_prune(goal):
        return goal
    return Pruner(ctx.facts, clock() + 5, SPLIT[0]).go(goal)


# ------------------------------------------------------------------------------------------ clearing denominators
def primitive(p):
    """(p without its common monomial and leading coefficient, the exponents of the common monomial, the leading coefficient)"""
    low = {}
    for i, m in enumerate(p):
        d = dict(m)
        for a in set(low) | set(d):
            low[a] = min(low.get(a, 0), d.get(a, 0)) if i else d.get(a, 0)
    low = {a: e for a, e in low.items() if e}
    inv = tuple(sorted((a, -e) for a, e in low.items()))
    q = {T.mmul(m, inv): c for m, c in p.items()}
    lc = q[min(q)]
    return {m: c / lc for m, c in q.items()}, low, lc


class Field:
    """equality of two terms after multiplying with denominators that the facts show to be nonzero"""

    def __init__(self, ctx, terms):
        self.ctx = ctx
        self.terms = terms
        self.pos = None
        self.memo = {}
        self.rn = {}

    def positives(self):
        if self.pos is None:
            self.pos = []
            todo = list(self.ctx.facts)
            idx = index_terms(self.terms)
            for c in self.ctx.schemas:
                for tt in itertools.product(idx[:10], repeat=c.arity):
                    todo.append(c.fn(*tt))
            while todo:
                f = todo.pop()
                if z3.is_and(f):
                    todo += f.children()
                    continue
                if z3.is_implies(f):
                    if len(binder_apps([f.arg(0)])) == 0 and lin_check(self.ctx.facts, f.arg(0), 200):
                        todo.append(f.arg(1))
                    continue
                neg = z3.is_not(f)
                g = f.arg(0) if neg else f
                if not z3.is_app(g) or g.num_args() != 2 or not z3.is_arith(g.arg(0)):
                    continue
                k = g.decl().kind()
                if neg:
                    k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_EQ: z3.Z3_OP_DISTINCT}.get(k)
                x, y = g.children()
                if k in (z3.Z3_OP_LT,):
                    x, y, k = y, x, z3.Z3_OP_GT
                if k == z3.Z3_OP_GT and (z3.is_rational_value(y) or z3.is_int_value(y)) and float(y.as_fraction() if z3.is_rational_value(y) else y.as_long()) >= 0 or k == z3.Z3_OP_DISTINCT and T._is0(y):
                    try:
                        sh = self.shape(poly(x))
                        if sh:
                            self.pos.append((sh, k == z3.Z3_OP_GT))
                    except PolyTooBig:
                        pass
        return self.pos

    def counts(self, p):
        """lengths of nonempty ranges are differences"""
        for _ in range(8):
            for m in p:
                a = next((a for a, e in m if a.startswith("CNT{")), None)
                if a is not None:
                    break
            else:
                return p
            t = ATOMS[a]                # ToReal(If(hi >= lo, hi - lo, 0))
            i = t.arg(0)
            if not (z3.is_app_of(i, z3.Z3_OP_ITE) and self.known(i.arg(0))):
                return p
            p = self.replace(p, a, poly(z3.ToReal(i.arg(1))))
        return p

    def replace(self, p, a, q):
        out = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            r = {tuple((b, f) for b, f in m if b != a): c}
            for _ in range(abs(e)):
                r = T.pmul(r, q if e > 0 else T.pinv(q))
            out = padd(out, r)
        return out

    def known(self, f):
        k = f.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (f, quick(self.ctx, f, 400))
        return r[1]

    def rnf(self, p):
        """numerator (no divisions) and denominator (exponents of atoms) of a rational function"""
        p = self.counts(p)
        den = {}
        for _ in range(30):
            low = {}
            for m in p:
                for a, e in m:
                    if e < 0:
                        low[a] = min(low.get(a, 0), e)
            if not low:
                return p, den
            a = min(low, key=lambda x: (not x.startswith("DEN("), x))
            k = -low[a]
            if a not in T.DEN_ARG:
                p = {T.mmul(m, ((a, k),)): c for m, c in p.items()}
                den[a] = den.get(a, 0) + k
                continue
            r = self.rn.get(a)
            if r is None:
                nq, dq = self.rnf(T.DEN_ARG[a])
                g, low, lc = primitive(nq)
                b = T.pinv(g)                       # one monomial: g^-1
                (mb, cb), = b.items()
                tot = dict(low)                     # a == lc * g * low / dq
                for x, e in dq.items():
                    tot[x] = tot.get(x, 0) - e
                r = self.rn[a] = (mb, cb / lc, tuple((x, -e) for x, e in tot.items() if e), g)
            mb, cb, mono, g = r
            top = T.DEN_ARG.get(mb[0][0]) if len(mb) == 1 and mb[0][0] in T.DEN_ARG else None
            out = {}
            for m, c in p.items():
                e = -dict(m).get(a, 0)              # the term has a^-e, e <= k
                t = {tuple((x, f) for x, f in m if x != a): c * Frac(cb) ** e}
                ex = {T.mmul((), tuple((x, f * e) for x, f in mono)): Frac(1)}
                if top is not None:
                    for _ in range(k - e):
                        ex = T.pmul(ex, top)
                else:
                    ex = T.pmul(ex, {tuple((x, f * e) for x, f in mb): Frac(1)}) if e else ex
                out = padd(out, T.pmul(t, ex))
            p = out
            if top is not None:
                den[mb[0][0]] = den.get(mb[0][0], 0) + k
            p = self.poss(p)
        raise PolyTooBig()

    def poss(self, p):
        """positive powers of DEN atoms are the polynomials they stand for"""
        for _ in range(10):
            a = next((a for m in p for a, e in m if e > 0 and a in T.DEN_ARG), None)
            if a is None:
                return p
            p = self.replace_pos(p, a, T.DEN_ARG[a])
        raise PolyTooBig()

    def replace_pos(self, p, a, q):
        out = {}
        for m, c in p.items():
            e = dict(m).get(a, 0)
            if e <= 0:
                out = padd(out, {m: c})
                continue
            r = {tuple((b, f) for b, f in m if b != a): c}
            for _ in range(e):
                r = T.pmul(r, q)
            out = padd(out, r)
        return out

    def shape(self, p):
        """(primitive numerator, exponents of the remaining monomial, leading coefficient)"""
        n, den = self.rnf(p)
        if not n:
            return None
        q, low, lc = primitive(n)
        mono = dict(low)
        for a, e in den.items():
            mono[a] = mono.get(a, 0) - e
        return q, mono, lc

    def nonzero(self, a):
        q = T.DEN_ARG.get(a)
        if q is not None:
            s = self.shape(q)
            if s and any(s[0] == x[0] for x, _ in self.positives()):
                return all(self.nonzero(b) for b in s[1] if b != a)
            if self.positive(q):
                return True
        if a.startswith("SQRT(") and self.positive(poly(ATOMS[a].arg(0))):
            return True
        return self.known(ATOMS[a] != 0)

    def positive(self, p):
        s = self.shape(p)
        if s is None:
            return False
        q, rest, lc = s
        cands = [({}, 1)] if len(q) == 1 else [(x[1], x[2]) for x, pos in self.positives() if pos and x[0] == q]
        if not cands:
            # a product of two positive quantities
            n = [x for x, pos in self.positives() if pos]
            for i, x in enumerate(n):
                for y in n[i:]:
                    if len(x[0]) * len(y[0]) <= 400 and primitive(T.pmul(x[0], y[0]))[0] == q:
                        z = primitive(T.pmul(x[0], y[0]))
                        d = dict(x[1])
                        for a, e in list(y[1].items()) + list(z[1].items()):
                            d[a] = d.get(a, 0) + e
                        cands.append((d, x[2] * y[2] * z[2]))      # q == x*y / (z[1] * z[2])
        for rx, lx in cands:
            if lc / lx <= 0:
                continue
            d = dict(rest)
            for a, e in rx.items():
                d[a] = d.get(a, 0) - e
            if all(e % 2 == 0 and self.nonzero(a) or e % 2 and self.pos_atom(a) for a, e in d.items() if e):
                return True
        return False

    def pos_atom(self, a):
        q = T.DEN_ARG.get(a)
        if q is not None and self.positive(q):
            return True
        return self.known(ATOMS[a] > 0)

    def zero(self, p):
        for _ in range(20):
            p, den = self.rnf(p)
            if not all(self.nonzero(a) for a in den):
                return False
            if not p:
                return True
            if len(p) > 1000:
                return False
            a = next((a for m in p for a, e in m if e >= 2 and a not in T.SQRT_ARG and a.startswith('SQRT(')), None)
            if a is None:
                return False
            arg = ATOMS[a].arg(0)
            q = poly(arg)
            if not (self.positive(q) or self.known(arg >= 0)):
                return False
            out = {}
            for m, c in p.items():
                e = dict(m).get(a, 0)
                r = {tuple(sorted([(b, f) for b, f in m if b != a] + ([(a, 1)] if e % 2 else []))): c}
                for _ in range(e // 2):
                    r = T.pmul(r, q)
                out = padd(out, r)
            p = out
        return False


def field_eq(ctx, x, y):
    try:
        p = padd(poly(x), poly(y), -1)
        if not any(e < 0 or a.startswith("CNT{") or abs(e) >= 2 for m in p for a, e in m):
            return False
        return Field(ctx, [x, y]).zero(p)
    except PolyTooBig:
        return False


def _prove(ctx, goal, depth, deadline, budget=8000):
    if z3.is_true(goal):
        return 'trivial'
    if not z3.is_and(goal) and not z3.is_implies(goal):
        goal = prune(ctx, goal)
    if z3.is_and(goal):
        how = None
        for c in goal.children():
            h = _prove(ctx, c, depth, deadline, budget)
            if h is None:
                return None
            how = h
        return how
    if z3.is_implies(goal):
        return _prove(ctx.extended(goal.arg(0)), goal.arg(1), depth, deadline, budget)
    if z3.is_eq(goal) and z3.is_arith(goal.arg(0)):
        try:
            if poly_eq(goal.arg(0), goal.arg(1)):
                return 'normal-form'
        except PolyTooBig:
            pass
        if field_eq(ctx, goal.arg(0), goal.arg(1)):
            return 'normal-form+denominators'
    if z3.is_eq(goal) and z3.is_bool(goal.arg(0)):
        if bkey(goal.arg(0)) == bkey(goal.arg(1)):
            return 'normal-form'
    g = z3.simplify(goal)
    if z3.is_true(g):
        return 'simplify'
    if clock() > deadline:
        return None
    facts = ctx.facts
    left = lambda: max(200, int(1000 * (deadline - clock())))
    has_b = bool(binder_apps([goal]))
    if has_b:
        # stage 0: bounds of the sums alone
        ax = axioms_for([goal], Ctx(), idx=[], rounds=1)
        for x in subterms(goal):
            if z3.is_app_of(x, z3.Z3_OP_DIV) and not z3.is_rational_value(x.arg(1)):
                a, d = x.children()
                ax.append(z3.Implies(d > 0, And(z3.Implies(a >= 0, x >= 0), z3.Implies(a <= d, x <= 1))))
        if lin_check(facts + ax, goal, 300):
            return 'z3-linear'
    # stage 1: bare + axioms
    ax = axioms_for(facts + [goal], ctx)
    if lin_check(facts + ax, goal, min(2000, left(), budget)):
        return 'z3-linear'
    cheap_sat = False

    def general():
        r, _ = _check(facts + ax, goal, min(1500 if has_b else 3000, left(), budget))
        return r
    if not has_b:
        r = general()
        if r == z3.unsat:
            return 'z3'
        cheap_sat = (r == z3.sat)
    if has_b:
        tried = {}
        extra = [f.arg(1) for f in ax if z3.is_implies(f) and z3.is_eq(f.arg(1)) and z3.is_app_of(f.arg(1).arg(0), z3.Z3_OP_TO_REAL)] if depth == 0 else []
        eqs = match_binders(goal, ctx, depth, deadline, tried, extra)
        g2 = goal
        facts2 = facts + eqs
        if eqs:
            g2 = merge_equal(goal, eqs)
            if z3.is_eq(g2) and z3.is_arith(g2.arg(0)) and poly_eq(g2.arg(0), g2.arg(1)):
                return 'binder-match'
            ax2 = axioms_for(facts2 + [g2], ctx)
            if lin_check(facts2 + ax2, g2, min(2000, left(), budget)):
                return 'z3-linear+binder-match'
            r, _ = _check(facts2 + ax2, g2, min(1500, left(), budget))
            if r == z3.unsat:
                return 'z3+binder-match'
        r = general()
        if r == z3.unsat:
            return 'z3'
        cheap_sat = (r == z3.sat)
        # stage 3: normalised goal and facts
        try:
            memo = {}
            g3 = normalise(g2, memo)
            f3 = [normalise(f, memo) for f in facts]
            apps0 = {x.get_id() for x, _ in binder_apps([goal])}
            eqs3 = []
            if any(x.get_id() not in apps0 for x, _ in binder_apps([g3])):
                eqs3 = match_binders(g3, ctx, depth, deadline, tried)
                if eqs3:
                    g3 = normalise(merge_equal(g3, eqs3), memo)
                    if z3.is_true(z3.simplify(g3)):
                        return 'normal-form+binder-match'
            if not g3.eq(goal) or any(not a.eq(b) for a, b in zip(f3, facts)):
                ff = facts + [f for f, o in zip(f3, facts) if not f.eq(o)] + eqs + eqs3
                ax3 = axioms_for(ff + [g3], ctx)
                if lin_check(ff + ax3, g3, min(2000, left(), budget)):
                    return 'z3-linear+normal-form'
                r, _ = _check(ff + ax3, g3, min(6000, left(), budget))
                if r == z3.unsat:
                    return 'z3+normal-form'
        except PolyTooBig:
            pass
    if clock() > deadline:
        return None
    pl = product_lemmas(facts + ax, goal)
    if pl and not (cheap_sat and not pl):
        r, _ = _check(facts + ax + pl, goal, min(5000, left(), budget))
        if r == z3.unsat:
            return 'z3+products'
    if not cheap_sat and depth == 0:
        r, _ = _check(facts + ax, goal, min(10000, left()))
        if r == z3.unsat:
            return 'z3'
    return None


def merge_equal(goal, eqs):
    pairs = [(e.arg(1), e.arg(0)) for e in eqs]
    return z3.substitute(goal, *pairs)


def cvc5_check(facts, goal, timeout_ms):
    try:
        import cvc5
    except ImportError:
        return False
    s = z3.Solver()
    for f in facts:
        s.add(f)
    s.add(Not(goal))
    txt = s.to_smt2()
    txt = txt.replace("(check-sat)", "")
    t = clock()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption("tlimit-per", str(timeout_ms))
        slv.setLogic("ALL")
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            c.invoke(slv, sm)
        r = slv.checkSat()
        return r.isUnsat()
    except Exception:
        return False
    finally:
        STATS.cvc5_time += clock() - t
        STATS.queries += 1


def satisfiable(ctx, timeout=5000):
    """is the context satisfiable as far as the solver can tell? ('sat'|'unsat'|'unknown')"""
    s = z3.Solver()
    limit(s, timeout)
    for f in ctx.facts:
        s.add(f)
    return str(s.check())


def model_of(ctx, goal, timeout=3000):
    ax = axioms_for(ctx.facts + [goal], ctx)
    r, s = _check(ctx.facts + ax, goal, timeout)
    if r == z3.sat:
        return s.model()
    return None
