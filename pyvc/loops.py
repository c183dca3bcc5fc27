"""Loop summarisation: a loop with a symbolic trip count is executed once on an arbitrary iteration with its loop-carried
state replaced by fresh symbols; the state after n iterations is then obtained in closed form (induction on the
iteration count is built into each rule below) and substituted back."""
import ast
import numpy as np
import z3
from .terms import *
from . import terms as T
from .arrays import *
from .arrays import _birth
from .interp import *
from .interp import Obligation
from . import interp as I
from .prover import Ctx, quick, _check

MAXUNROLL = 20000


# ---------------------------------------------------------------- deep traversal
_bdeps = {}


def deps(t):
    """names of uninterpreted symbols in t, looking into binder bodies"""
    out = set()
    for x in subterms(t):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            n = x.decl().name()
            b = T.BINDERS.get(n)
            if b is not None:
                r = _bdeps.get(n)
                if r is None:
                    r = {d for d in deps(b.body) | deps(b.lo) | deps(b.hi) if not d.startswith(("P!", "B!"))}
                    _bdeps[n] = r
                out |= r
            else:
                out.add(n)
    return out


def rewrite_deep(t, names, fn, memo=None, decl=False):
    """replace applications of the symbols in `names`: fn(name, args) -> term; descends into binder bodies"""
    if not (deps(t) & names):
        return t
    memo = {} if memo is None else memo

    def go(x):
        k = x.get_id()
        r = memo.get(k)
        if r is not None:
            return r[1]
        y = x
        if z3.is_app(x):
            d = x.decl()
            unint = d.kind() == z3.Z3_OP_UNINTERPRETED
            b = T.BINDERS.get(d.name()) if unint else None
            if b is not None:
                if deps(x) & names:
                    bv = z3.Const(fresh_name("rb"), b.bvar.sort())
                    lo, hi, body = open_binder(x, bv)
                    nlo, nhi, nb = go(lo), go(hi), go(body)
                    if b.kind == 'SUM':
                        y = SumT(nlo, nhi, lambda q: nb if q.eq(bv) else z3.substitute(nb, (bv, q)))
                    else:
                        y = make_binder(b.kind, bv, nlo, nhi, nb, b.sort)
            else:
                ch = x.children()
                if ch:
                    nch = [go(c) for c in ch]
                else:
                    nch = []
                if unint and d.name() in names:
                    y = fn(d if decl else d.name(), nch)
                elif any(not a.eq(b_) for a, b_ in zip(ch, nch)):
                    y = rebuild(x, nch)
        memo[k] = (x, y)
        return y
    return go(t)


# ---------------------------------------------------------------- driver
def exec_for(it, s, env):
    seqv = it.eval(s.iter, env)
    seq = it.iterate(seqv)
    if isinstance(seq, list):
        return unrolled(it, s, env, seq)
    n = seq.n
    return summarise(it, s, env, n, lambda i: it.assign(s.target, seq.fn(i), env), seqv)


def unrolled(it, s, env, seq):
    if len(seq) > MAXUNROLL:
        raise Unsupported("loop too long to unroll")
    record(it, s, None, 'unrolled')
    brk = False
    for x in seq:
        def th():
            it.assign(s.target, x, env)
            try:
                it.exec_block(s.body, env)
            except FlowContinue:
                pass
        o = it.run_merged(th)
        if o.flow == 'break':
            brk = True
            break
        it.finish(o)
    if not brk and s.orelse:
        it.exec_block(s.orelse, env)


def exec_while(it, s, env):
    for k in range(MAXUNROLL):
        c = it.truth(it.eval(s.test, env))
        if not isinstance(c, bool):
            kn = it.known(c)
            if kn is None:
                return while_search(it, s, env)
            c = kn
        if not c:
            if s.orelse:
                it.exec_block(s.orelse, env)
            return

        def th():
            try:
                it.exec_block(s.body, env)
            except FlowContinue:
                pass
        o = it.run_merged(th)
        if o.flow == 'break':
            return
        it.finish(o)
    raise Unsupported("while loop does not terminate")


def omp_of(it, s, env):
    try:
        path = env.fn[1].get('__file__')
        _, _, omp, _ = I.source_index(path)
        return omp.get(s.lineno - 1)
    except Exception:
        return None


def record(it, s, omp, kind, detail=None):
    it.loops.append((it.stackfn[-1] if it.stackfn else '?', s.lineno, omp, kind, detail))


def reachable(env):
    """ids of mutable python containers that exist before the loop"""
    seen = set()

    def go(v, d=0):
        if d > 6:
            return
        if isinstance(v, (list, dict)):
            if id(v) in seen:
                return
            seen.add(id(v))
            for x in (v.values() if isinstance(v, dict) else v):
                go(x, d + 1)
        elif isinstance(v, tuple):
            for x in v:
                go(x, d + 1)
        elif isinstance(v, (SymArr, SymObj)):
            if id(v.attrs) not in seen:
                seen.add(id(v.attrs))
                for x in v.attrs.values():
                    go(x, d + 1)
        elif isinstance(v, Partial):
            go(v.value, d + 1)
    e = env
    while e is not None:
        go(e)
        e = e.fn[0]
    return seen


class Marker:
    """stands for the unknown prefix of a list that is appended to in a loop"""
    def __init__(self, old): self.old = old


class Comp:
    """one scalar (or function of an index tuple) of loop-carried state"""
    def __init__(self, sid, tag, name, sort, arity, init, post):
        self.sid, self.tag, self.name, self.sort, self.arity = sid, tag, name, sort, arity
        self.init = init        # fn(idx terms) -> z3 term
        self.post = post        # fn(idx terms) -> z3 term with h symbols and i
        self.cf = None          # fn(i, idx) -> z3 term, value at the start of iteration i
        self.how = None


KSORT = {'b': BOOL, 'i': INT, 'f': REAL, 'c': REAL, 'bv': z3.BitVecSort(64)}


def parts(kind):
    return ('re', 'im') if kind == 'c' else ('re',)


class Hav:
    """havoc record of one slot"""
    pass


def summarise(it, s, env, n, bind, seqv=None, whilecond=None):
    omp = omp_of(it, s, env)
    i = FreshInt("i")
    n = zint(n)
    b0 = next(_birth)
    old_ids = reachable(env)
    frames = set()
    e = env
    while e is not None:
        frames.add(id(e))
        e = e.fn[0]

    def is_old(c, k):
        if isinstance(c, Buffer):
            return c.birth < b0
        if isinstance(c, Env):
            return id(c) in frames
        return id(c) in old_ids

    touched = {}            # sid -> (container,key)
    kinds = {}              # sid -> forced kind
    usebv = False
    holder = {}
    invs = {}               # sid -> invariant of the specification that holds at loop entry (or None)
    omark = len(it.obls)
    lmark = len(it.loops)
    it.loopstack.append((s, i, n))
    if it.cands:
        for c, k in assigned_slots(s, env):
            if is_old(c, k) and invariant(it, c, k, i, (id(c), k), invs, probe=True):
                touched[(id(c), k)] = (c, k)
    try:
        for rnd in range(10):
            del it.obls[omark:]
            del it.loops[lmark:]
            smark = len(it.schemas)
            mark, fmark = len(it.trail), len(it.facts)
            fresh0 = dict(T._fresh)
            hav = {}
            try:
                for sid, (c, k) in touched.items():
                    hav[sid] = invariant(it, c, k, i, sid, invs) or havoc(it, c, k, kinds.get(sid), usebv)
                if omp and seqv is not None and isinstance(seqv, SymArr):
                    pass

                def th():
                    it.assume(i >= 0)
                    it.assume(i < n)
                    if whilecond is not None:
                        it.assume(whilecond())
                    bind(i)
                    try:
                        it.exec_block(s.body, env)
                    except FlowContinue:
                        pass
                try:
                    outs = it.explore(th)
                except Unsupported as ex:
                    if 'bit vector' in str(ex) and not usebv:
                        usebv = True
                        it.rollback(mark)
                        del it.facts[fmark:]
                        continue
                    raise
                outs = it.merge(outs)
                normal = [o for o in outs if o.flow == 'normal']
                breaks = [o for o in outs if o.flow == 'break']
                raises = [o for o in outs if o.flow == 'raise']
                rets = [o for o in outs if o.flow == 'return']
                new = False
                for o in outs:
                    if o.flow == 'raise':
                        continue
                    for sid, (c, k, v) in o.diff.items():
                        if sid not in touched and is_old(c, k):
                            touched[sid] = (c, k)
                            new = True
                        elif sid in touched and o.flow == 'normal':
                            nk = post_kind(v)
                            h = hav[sid]
                            if h.type == 'poison' and nk is not None and h.undef:
                                kinds[sid] = nk
                                new = True
                            elif h.type == 'scalar' and nk is not None and h.kind != nk and KORD[nk] > KORD[h.kind]:
                                kinds[sid] = nk
                                new = True
                            elif h.type == 'scalar' and nk == 'bv' and h.kind == 'i':
                                kinds[sid] = 'bv'
                                new = True
                if new:
                    continue
                if len(normal) > 1:
                    raise Unsupported("loop body paths cannot be merged")
                if rets:
                    raise Unsupported("return inside a loop with symbolic trip count")
                post = {}
                if normal:
                    for sid, (c, k) in touched.items():
                        d = normal[0].diff.get(sid)
                        post[sid] = d[2] if d is not None else it.get_slot(c, k)
                    nfacts = list(normal[0].facts)
                holder.update(hav=hav, post=post, normal=normal, breaks=breaks, raises=raises, fresh0=fresh0)
            finally:
                it.rollback(mark)
                ofacts = it.facts[fmark:]
                del it.facts[fmark:]
            break
        else:
            raise Unsupported("loop state did not stabilise")
    finally:
        it.loopstack.pop()
    hav, post, normal = holder['hav'], holder['post'], holder['normal']
    for r in holder['raises']:
        it.obls.append(Obligation(it.where() + "no exception in loop (%s)" % (r.value.where,),
                                  [f for f, _ in it.facts] + [i >= 0, i < n] + list(r.facts), Not(r.cond()), list(it.schemas)))
    nn = n
    if holder['breaks']:
        bc = Or(*[b.cond() for b in holder['breaks']])
        holder['breakcond'] = bc
    if not normal:
        raise Unsupported("loop without a normal iteration")
    sol = Solver(it, s, env, i, n, hav, post, touched, omp, holder['fresh0'])
    sol.solve()
    for sid, h in hav.items():
        if h.type == 'inv':
            if holder['breaks']:
                raise Unsupported("loop with an invariant is left early")
            obl_invariant(it, sol, h, post[sid], i, n)
    if holder['breaks']:
        bc = sol.close(holder['breakcond'], i)
        if deps(bc) & sol.hnames:
            raise Unsupported("break condition depends on unsolved state")
        nn = FirstT(z3.IntVal(0), n, lambda q: z3.substitute(bc, (i, q)))
    # obligations of the body: closed forms for the loop-carried symbols
    for o in it.obls[omark:]:
        o.facts = [sol.close(f, i) for f in o.facts]
        o.goal = sol.close(o.goal, i)
        if holder['breaks']:
            o.facts.append(i <= nn)
    if whilecond is not None:
        nn = sol.while_count(whilecond)
    finals = sol.finals(nn)
    for sid, (c, k) in touched.items():
        if sid in finals:
            it.set_slot(c, k, finals[sid])
            if isinstance(c, Buffer):
                it.on_write(c)
    record(it, s, omp, 'summarised', sol.classification())
    if holder['breaks']:
        def th2():
            if it.choose([nn < n, nn >= n]) == 0:
                bind(nn)
                try:
                    it.exec_block(s.body, env)
                except FlowBreak:
                    return 'broke'
                except FlowContinue:
                    raise Unsupported("break iteration did not break")
                raise Unsupported("break iteration did not break")
            else:
                it.exec_block(s.orelse, env) if s.orelse else None
        o = it.run_merged(th2)
        it.finish(o)
    elif getattr(s, 'orelse', None):
        it.exec_block(s.orelse, env)
    return


def post_kind(v):
    if isinstance(v, Partial):
        v = v.value
    if is_scalar(v):
        return lift(v).kind
    return None


class Inv:
    """loop invariant of the specification for one carried value at one nesting depth:
    fn(outer..., j) -> value (a function of the array index, or a scalar) after j iterations, in terms of ghost functions;
    step(outer..., j): the definition of fn(outer..., j+1);  base(outer...): the definition of fn(outer..., 0), where that differs"""
    def __init__(self, name, depth, kind, arity, fn, step, base=None):
        self.name, self.depth, self.kind, self.arity, self.fn, self.step, self.base = name, depth, kind, arity, fn, step, base


def assigned_slots(s, env):
    """variables and arrays that the text of the loop assigns (only a guess which ones are carried; the execution decides)"""
    out = []
    for x in s.body:
        for nd in ast.walk(x):
            ts = nd.targets if isinstance(nd, ast.Assign) else [nd.target] if isinstance(nd, ast.AugAssign) else []
            for t in ts:
                for q in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    b = q
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if not isinstance(b, ast.Name) or b.id not in env:
                        continue
                    v = env[b.id]
                    if isinstance(v, SymArr):
                        out.append((v.buf, 'content'))
                    elif b is q and is_scalar(v):
                        out.append((env, b.id))
    return out


def invariant(it, c, k, i, sid, cache, probe=False):
    """the invariant of the specification that describes this value at loop entry"""
    if not it.cands or isinstance(c, list):
        return None
    depth = len(it.loopstack)
    outer = [Val('i', x[1]) for x in it.loopstack[:-1]]
    cur = it.get_slot(c, k)
    if isinstance(c, Buffer):
        kind, arity, shape = dkind(c.dtype), len(c.shape), c.shape
        init = lambda z: cur(cidx(z))
    elif is_scalar(cur):
        kind, arity, shape = lift(cur).kind, 0, ()
        init = lambda z: lift(cur)
    else:
        return None
    if sid not in cache:
        cache[sid] = None
        for cd in it.cands:
            if cd.depth != depth or cd.arity != arity or not (cd.kind == kind or cd.kind == 'bv' and kind == 'i'):
                continue
            K = tuple(z3.Int(fresh_name("K")) for _ in range(arity))
            try:
                g = inv_eq(cd, init(K), (cd.base(*outer) if cd.base is not None else cd.fn(*outer, Val('i', z3.IntVal(0)))), K)
            except Unsupported:
                continue
            rng = [And(q >= 0, q < zint(d)) for q, d in zip(K, shape)]
            cx = it.ctx()
            if z3.is_true(z3.simplify(g)) or quick(Ctx(cx.facts + rng, cx.schemas), g, 3000):
                cache[sid] = (cd, g, rng)
                break
    if cache[sid] is None or probe:
        return cache[sid]
    cd, g, rng = cache[sid]
    h = Hav()
    h.undef, h.part, h.cur, h.type, h.kind, h.arity, h.shape, h.cand, h.outer = False, None, cur, 'inv', cd.kind, arity, shape, cd, outer
    h.baseobl = (rng, g)
    h.buffer = isinstance(c, Buffer)
    h.dt = c.dtype if h.buffer else lift(cur).dt
    h.at = lambda j: inv_content(cd.fn(*outer, Val('i', zint(j))), h)
    it.set_slot(c, k, h.at(i))
    return h


def inv_content(v, h):
    if not h.buffer:
        v = lift(v)
        return Val(h.kind, v.re, v.im, h.dt)

    def content(idx):
        x = cast(lift(v(*[Val('i', zint(q)) for q in cidx(idx)])), h.kind)
        return Val(h.kind, x.re, x.im, h.dt)
    return memo(content)


def inv_eq(cd, a, b, K):
    """equality of the carried value and the invariant, at index K"""
    if cd.arity:
        b = b(*[Val('i', q) for q in K])
    a, b = lift(a), lift(b)
    return And(*[sel(a, p, cd.kind) == sel(b, p, cd.kind) for p in parts(cd.kind)])


def obl_invariant(it, sol, h, post, i, n):
    cd = h.cand
    rng, g = h.baseobl
    fs = [f for f, _ in it.facts]
    it.obls.append(Obligation(it.where() + "loop invariant holds at the start: %s (depth %d)" % (cd.name, cd.depth), fs + rng, g, list(it.schemas)))
    K = tuple(z3.Int(fresh_name("K")) for _ in range(h.arity))
    rng = [And(q >= 0, q < zint(d)) for q, d in zip(K, h.shape)]
    v = post(cidx(K)) if h.buffer else post
    if isinstance(v, Partial) or not is_scalar(v):
        raise Unsupported("value with an invariant changes its type")
    g = inv_eq(cd, v, cd.step(*h.outer, Val('i', i)), K)
    g = sol.close(sol.liftnew(g), i)
    if deps(g) & sol.hnames:
        raise Unsupported("invariant depends on unsolved state")
    goals = [("", g)]
    if cd.kind == 'bv' and z3.is_eq(g) and z3.is_bv(g.arg(0)):
        # digit by digit
        a, b = g.arg(0), g.arg(1)
        digits = [(" digit %d" % q, z3.simplify(z3.Extract(q, q, a) == z3.Extract(q, q, b))) for q in range(64)]
        digits = [(l, q) for l, q in digits if not z3.is_true(q)] or [("", z3.BoolVal(True))]
        if len(digits) <= 8:
            goals = digits
    for l, g in goals:
        it.obls.append(Obligation(it.where() + "loop invariant is preserved: %s (depth %d)%s" % (cd.name, cd.depth, l), fs + [i >= 0, i < n] + rng, g, list(it.schemas)))
    sol.how.setdefault(next(q for q, x in sol.hav.items() if x is h), set()).add('invariant')


def havoc(it, c, k, forced, usebv):
    h = Hav()
    h.undef = False
    h.part = None
    cur = it.get_slot(c, k)
    h.cur = cur
    if isinstance(c, Buffer):
        h.type = 'buffer'
        kind = dkind(c.dtype)
        probe = None
        h.kind, h.dtype, h.arity = kind, c.dtype, len(c.shape)
        h.ufs = {p: mkuf("H", h.arity, KSORT[kind]) for p in parts(kind)}
        ufs, dt = h.ufs, c.dtype

        def content(idx):
            z = zidx(cidx(idx))
            if kind == 'c':
                return Val('c', app(ufs['re'], z), app(ufs['im'], z), dt)
            return Val(kind, app(ufs['re'], z), None, dt)
        h.value = memo(content)
        it.set_slot(c, k, h.value)
        return h
    if isinstance(c, list):
        h.type = 'list'
        h.value = [Marker(cur)]
        it.set_slot(c, k, h.value)
        return h
    if isinstance(cur, Partial) and is_scalar(cur.value) or (cur is UNDEF and forced):
        h.type = 'partial'
        kind = forced or lift(cur.value).kind
        if usebv and kind == 'i':
            kind = 'bv'
        h.kind = kind
        h.hb = z3.Const(fresh_name("hb"), BOOL)
        h.ufs = {p: z3.Const(fresh_name("h"), KSORT[kind]) for p in parts(kind)}
        h.initb = z3.BoolVal(False) if cur is UNDEF else cur.cond
        h.dt = None if cur is UNDEF else lift(cur.value).dt
        h.init = Val(kind, *[z3.Const(fresh_name("undef"), KSORT[kind]) for p in parts(kind)]) if cur is UNDEF else cast(cur.value, kind)
        h.val = Val(kind, h.ufs['re'], h.ufs.get('im'), h.dt)
        it.set_slot(c, k, Partial(h.hb, h.val))
        return h
    if is_scalar(cur):
        v = lift(cur)
        kind = forced or v.kind
        if usebv and kind == 'i':
            kind = 'bv'
        h.type, h.kind = 'scalar', kind
        h.ufs = {p: z3.Const(fresh_name("h"), KSORT[kind]) for p in parts(kind)}
        h.init = cast(v, kind) if v.kind != kind else v
        h.dt = v.dt if v.dt is not None and dkind(v.dt) == kind else None
        it.set_slot(c, k, Val(kind, h.ufs['re'], h.ufs.get('im'), h.dt))
        return h
    if isinstance(cur, (SymArr, np.ndarray)):
        a = as_sym(cur)
        h.type, h.kind, h.dtype, h.arity, h.shape = 'array', dkind(a.dtype), a.dtype, a.ndim, a.shape
        h.cls, h.attrs = a.cls, a.attrs
        h.ufs = {p: mkuf("A", h.arity, KSORT[h.kind]) for p in parts(h.kind)}
        ufs, dt, kind = h.ufs, a.dtype, h.kind
        h.initsnap = a.snap()

        def content2(idx):
            z = zidx(cidx(idx))
            if kind == 'c':
                return Val('c', app(ufs['re'], z), app(ufs['im'], z), dt)
            return Val(kind, app(ufs['re'], z), None, dt)
        arr = SymArr.from_fn(a.shape, a.dtype, content2)
        arr.cls, arr.attrs = a.cls, dict(a.attrs)
        h.arr = arr
        it.set_slot(c, k, arr)
        return h
    h.type = 'poison'
    h.undef = cur is UNDEF
    it.set_slot(c, k, Poison())
    return h


def mkuf(base, arity, sort):
    nm = fresh_name(base)
    if arity == 0:
        return z3.Const(nm, sort)
    return z3.Function(nm, *([INT] * arity + [sort]))


def app(f, z):
    return f(*z) if isinstance(f, z3.FuncDeclRef) else f


def nm_of(f):
    return f.name() if isinstance(f, z3.FuncDeclRef) else f.decl().name()


def sel(v, p, kind):
    v = lift(v)
    if kind == 'c':
        re, im = v.as_cpx()
        return re if p == 're' else im
    if kind == 'f':
        return v.as_real()
    if kind == 'i':
        return v.as_int()
    if kind == 'bv':
        return v.as_bv()
    return v.as_bool() if v.kind != 'b' else v.re


class Solver:
    def __init__(self, it, s, env, i, n, hav, post, touched, omp, fresh0):
        self.it, self.s, self.env, self.i, self.n = it, s, env, i, n
        self.hav, self.post, self.touched, self.omp, self.fresh0 = hav, post, touched, omp, fresh0
        self.comps = []
        self.solved = {}
        self.values = {}        # sid -> last-value python objects
        self.lists = {}
        self.how = {}
        self.lifted = {}
        self.build()
        self.hnames = {c.name for c in self.comps}

    def slotname(self, sid):
        c, k = self.touched[sid]
        if isinstance(c, Buffer):
            return "array %s" % (c.name or '')
        return str(k)

    def build(self):
        for sid, h in self.hav.items():
            v = self.post[sid]
            if h.type == 'inv':
                continue
            if h.type == 'buffer':
                if v is h.value:
                    continue
                for p in h.ufs:
                    self.comps.append(Comp(sid, ('buf', p), nm_of(h.ufs[p]), KSORT[h.kind], h.arity,
                                           (lambda idx, p=p, h=h: sel(h.cur(cidx(idx)), p, h.kind)),
                                           (lambda idx, p=p, h=h, v=v: sel(v(cidx(idx)), p, h.kind))))
            elif h.type in ('scalar', 'partial'):
                vb = None
                if isinstance(v, Partial):
                    vb, v = v.cond, v.value
                    if h.type == 'scalar':
                        raise Unsupported("variable becomes unbound in a loop")
                if not is_scalar(v):
                    raise Unsupported("variable changes type in a loop")
                for p in h.ufs:
                    self.comps.append(Comp(sid, ('var', p), nm_of(h.ufs[p]), KSORT[h.kind], 0,
                                           (lambda idx, p=p, h=h: sel(h.init, p, h.kind)),
                                           (lambda idx, p=p, h=h, v=v: sel(cast(v, h.kind) if h.kind != 'bv' else v, p, h.kind))))
                if h.type == 'partial':
                    t = vb if vb is not None else z3.BoolVal(True)
                    self.comps.append(Comp(sid, ('bound', None), nm_of(h.hb), BOOL, 0, (lambda idx, h=h: h.initb), (lambda idx, t=t: t)))
            elif h.type == 'array':
                if isinstance(v, Partial):
                    raise Unsupported("array variable unbound")
                if v is h.arr:
                    continue
                if not isinstance(v, (SymArr, np.ndarray)):
                    self.values[sid] = v
                    continue
                a = as_sym(v)
                if a.ndim != h.arity or not all(same_int(x, y) for x, y in zip(a.shape, h.shape)):
                    self.values[sid] = v
                    self.mustdie = getattr(self, 'mustdie', []) + [set(nm_of(f) for f in h.ufs.values())]
                    continue
                snap = a.snap()
                h.post_arr = a
                if a.dtype.kind != h.dtype.kind:
                    self.values[sid] = v
                    self.mustdie = getattr(self, 'mustdie', []) + [set(nm_of(f) for f in h.ufs.values())]
                    continue
                for p in h.ufs:
                    self.comps.append(Comp(sid, ('arr', p), nm_of(h.ufs[p]), KSORT[h.kind], h.arity,
                                           (lambda idx, p=p, h=h: sel(h.initsnap(cidx(idx)), p, h.kind)),
                                           (lambda idx, p=p, h=h, snap=snap: sel(snap(cidx(idx)), p, h.kind))))
            elif h.type == 'list':
                if len(v) == 2 and isinstance(v[0], Marker):
                    self.lists[sid] = (v[0].old, v[1])
                elif len(v) == 1 and isinstance(v[0], Marker):
                    self.lists[sid] = (v[0].old, None)
                else:
                    raise Unsupported("list is changed in a loop other than by one append")
            else:
                self.values[sid] = v

    # ------------------------------------------------------------
    LIFTABLE = ("UNWRAP", "rnd", "empty")

    def liftnew(self, t):
        """arbitrary values created inside the iteration become arbitrary functions of the iteration"""
        names = {n for n in self.new_symbols(t) if n.rpartition('!')[0] in self.LIFTABLE}
        if not names:
            return t

        def fn(d, args):
            f = self.lifted.get(d.name())
            if f is None:
                f = z3.Function(d.name() + "@L%d" % id(self), *([INT] + [d.domain(q) for q in range(d.arity())] + [d.range()]))
                self.lifted[d.name()] = f
            return f(self.i, *args)
        return rewrite_deep(t, names, fn, decl=True)

    def close(self, t, i):
        """substitute the closed forms (values at the start of iteration i) into t"""
        names = {c.name for c in self.comps if c.cf is not None}
        byname = {c.name: c for c in self.comps}
        return rewrite_deep(t, names, lambda nm, args: byname[nm].cf(i, tuple(args)))

    def facts_i(self, *more):
        c = self.it.ctx()
        return Ctx(c.facts + [self.i >= 0, self.i < self.n] + list(more), c.schemas)

    def prove(self, goal, *more):
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        fs = [f for f in self.it.relevant_facts(And(goal, *more))]
        r, _ = _check(fs + [self.i >= 0, self.i < self.n] + list(more), goal, 300)
        if r == z3.unsat:
            return True
        if r == z3.sat and not any(z3.is_mul(x) or z3.is_app_of(x, z3.Z3_OP_IDIV) or z3.is_app_of(x, z3.Z3_OP_MOD) for x in subterms(And(goal, *more))):
            return False
        return quick(Ctx(fs + [self.i >= 0, self.i < self.n] + list(more), []), goal, 1500)

    def solve(self):
        for c in self.comps:
            c.K = tuple(z3.Int(fresh_name("K")) for _ in range(c.arity))
            c.e = c.post(c.K)
            if not is_z3(c.e):
                c.e = lift(c.e).re
            c.e = self.liftnew(c.e)
            new = self.new_symbols(c.e)
            if new:
                raise Unsupported("per-iteration symbol %s flows into loop state" % sorted(new)[0])
        todo = list(self.comps)
        while todo:
            prog = False
            for c in list(todo):
                d = deps(c.e) & self.hnames
                solvedn = {x.name for x in self.comps if x.cf is not None}
                if d & solvedn:
                    c.e = self.close(c.e, self.i)
                    d = deps(c.e) & self.hnames
                if self.rule(c, d):
                    todo.remove(c)
                    prog = True
            if prog:
                continue
            done = self.groups(todo)
            if done:
                for c in done:
                    todo.remove(c)
                continue
            if __import__("os").environ.get("DBGL"): [print("UNSOLVED", c.name, c.K, z3.simplify(c.e), self.happ(c, c.K)) for c in todo]
            names = ", ".join(sorted({self.slotname(c.sid) for c in todo}))
            raise Unsupported("no closed form for loop-carried state (%s) at line %d" % (names, self.s.lineno))
        # values of private variables (last value)
        for m in getattr(self, 'mustdie', []):
            used = set()
            for c in self.comps:
                used |= deps(c.post(c.K))
            if used & m:
                raise Unsupported("array of changing shape carried through a loop")

    def new_symbols(self, t):
        out = set()
        for nme in deps(t):
            if nme in self.hnames or nme == self.i.decl().name() or nme in T.GLOBAL_CONSTS:
                continue
            if '!' in nme:
                b, _, k = nme.rpartition('!')
                if k.endswith(("_re", "_im")):
                    k = k[:-3]
                if k.isdigit() and int(k) >= self.fresh0.get(b, 0) and b not in ('K',):
                    out.add(nme)
        return out

    # ------------------------------------------------------------ rules
    def setcf(self, c, cf, how):
        c.cf = cf
        c.how = how
        self.how.setdefault(c.sid, set()).add(how)
        return True

    def at(self, t, *pairs):
        return z3.substitute(t, *[(a, zint(b) if z3.is_int(a) else b) for a, b in pairs])

    def inst(self, c, t, i, idx):
        return subst(t, [(self.i, zint(i))] + list(zip(c.K, [zint(x) for x in idx])))

    def rule(self, c, d):
        e, i = c.e, self.i
        if c.name not in d and not d:
            # overwritten in every iteration (no dependence on carried state)
            if self.i.decl().name() not in deps(e):
                return self.setcf(c, lambda j, idx: zite(simp(j > 0), self.inst(c, e, j, idx), c.init(idx)), 'private')
            return self.setcf(c, lambda j, idx: zite(simp(zint(j) > 0), self.inst(c, e, zint(j) - 1, idx), c.init(idx)), 'private')
        h = self.happ(c, c.K)
        if e.eq(h):
            return self.setcf(c, lambda j, idx: c.init(idx), 'unchanged')
        if d != {c.name}:
            return False
        if z3.is_arith(e):
            dl = self.delta(c, e, h)
            if dl is not None:
                return self.additive(c, dl)
        r = self.overwrite(c, e, h)
        if r:
            return True
        if c.arity and z3.is_arith(e):
            o = self.own(c, e, h)
            if not o.eq(e):
                dl = self.delta(c, o, h)
                if dl is not None:
                    return self.additive(c, dl)
        return False

    def own(self, c, e, h):
        """reads of the cell being written are reads of the cell K: ite(K == t, f(H(t)), g) = ite(K == t, f(H(K)), g)"""
        if not z3.is_app_of(e, z3.Z3_OP_ITE):
            return e
        a, b = self.own(c, e.arg(1), h), self.own(c, e.arg(2), h)
        known = {}
        for q in self.conj(e.arg(0)):
            if z3.is_eq(q):
                for x, y in (q.children(), q.children()[::-1]):
                    if any(x.eq(k) for k in c.K):
                        known[x.get_id()] = y
        if all(k.get_id() in known for k in c.K):
            for x in subterms(a):
                if z3.is_app(x) and x.num_args() == c.arity and x.decl().name() == c.name and not x.eq(h) and all(y.eq(known[k.get_id()]) for y, k in zip(x.children(), c.K)):
                    a = z3.substitute(a, (x, h))
        return zite(e.arg(0), a, b)

    def happ(self, c, idx):
        for sid, hh in self.hav.items():
            if sid == c.sid:
                if c.tag[0] == 'bound':
                    return hh.hb
                f = hh.ufs[c.tag[1]]
                return app(f, idx)

    def delta(self, c, e, h):
        """e - h without h (conditionals pushed through), or None"""
        if e.eq(h):
            return z3.RealVal(0) if z3.is_real(h) else z3.IntVal(0)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            if c.name in deps(e.arg(0)):
                return None
            a = self.delta(c, e.arg(1), h)
            if a is None:
                return None
            b = self.delta(c, e.arg(2), h)
            if b is None:
                return None
            return zite(e.arg(0), a, b)
        if z3.is_add(e):
            ch = e.children()
            hs = [x for x in ch if c.name in deps(x)]
            if len(hs) == 1:
                a = self.delta(c, hs[0], h)
                if a is None:
                    return None
                rest = [x for x in ch if not x.eq(hs[0])]
                if len(rest) == len(ch) - 1:
                    r = a
                    for x in rest:
                        r = radd(r, x) if z3.is_real(e) else (r + x)
                    # push guards outside so that Kronecker deltas stay visible
                    return r
        if c.name not in deps(e):
            return None
        try:
            p = padd(poly(e), poly(h), -1)
        except PolyTooBig:
            return None
        z = poly_to_z3(p)
        if c.name in deps(z):
            return None
        if z3.is_int(h):
            return z3.simplify(z3.ToInt(z)) if not self.ints(z) is not None else self.ints(z)
        return z

    def ints(self, z):
        s = z3.simplify(z)
        if z3.is_rational_value(s) and s.denominator_as_long() == 1:
            return z3.IntVal(s.numerator_as_long())
        if z3.is_app_of(s, z3.Z3_OP_TO_REAL):
            return s.arg(0)
        return None

    def additive(self, c, dl):
        i = self.i
        isint = z3.is_int(dl)
        if i.decl().name() not in deps(dl):
            def cf(j, idx):
                d = self.inst(c, dl, i, idx)
                j = zint(j)
                if isint:
                    return z3.simplify(c.init(idx) + j * d) if conc_int(d) is not None else c.init(idx) + j * d
                return radd(c.init(idx), rmul(z3.ToReal(j), d))
            return self.setcf(c, cf, 'reduction')
        # split dl into guard/value for cells
        if c.arity:
            g, v = self.guard_split(dl)
            if g is not None:
                sol = self.solve_index(c, g)
                if sol is not None:
                    def cf(j, idx):
                        istar = self.inst(c, sol, i, idx)
                        cond = And(istar >= 0, istar < zint(j), self.inst(c, g, istar, idx))
                        return zite(z3.simplify(cond), c.init(idx) + self.inst(c, v, istar, idx), c.init(idx))
                    return self.setcf(c, cf, 'map')

        def cf(j, idx):
            t = SumT(z3.IntVal(0), zint(j), lambda q: (z3.ToReal(self.inst(c, dl, q, idx)) if isint else self.inst(c, dl, q, idx)))
            if isint:
                from .npmodels import toint
                t = toint(t)
                return c.init(idx) + t
            return radd(c.init(idx), t)
        return self.setcf(c, cf, 'reduction')

    def guard_split(self, dl):
        """dl = ite(g, v, 0)"""
        if z3.is_app_of(dl, z3.Z3_OP_ITE):
            a, b = dl.arg(1), dl.arg(2)
            if T._is0(b):
                g2, v2 = self.guard_split(a)
                if g2 is not None:
                    return And(dl.arg(0), g2), v2
                return dl.arg(0), a
            if T._is0(a):
                g2, v2 = self.guard_split(b)
                if g2 is not None:
                    return And(Not(dl.arg(0)), g2), v2
                return Not(dl.arg(0)), b
        return None, None

    def tree(self, c, e, h):
        """(G, V): e = ite(G, V, h); V may be conditional"""
        if e.eq(h):
            return z3.BoolVal(False), None
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            g1, v1 = self.tree(c, e.arg(1), h)
            g2, v2 = self.tree(c, e.arg(2), h)
            cnd = e.arg(0)
            if c.arity and c.name in deps(cnd):
                # decided by the carried value itself: part of the new value, not of the place
                G = z3.simplify(Or(g1, g2))
                if v1 is None and v2 is None:
                    return G, None
                side = lambda g, v: h if v is None else zite(g, v, h)
                return G, zite(cnd, side(g1, v1), side(g2, v2))
            G = z3.simplify(Or(And(cnd, g1), And(Not(cnd), g2)))
            if v1 is None:
                return G, v2
            if v2 is None:
                return G, v1
            return G, zite(cnd, v1, v2)
        if z3.is_bool(e) and z3.is_bool(h):
            if z3.is_or(e):
                ch = [x for x in e.children() if not x.eq(h)]
                if len(ch) < e.num_args() and not any(c.name in deps(x) for x in ch):
                    return Or(*ch), z3.BoolVal(True)
            if z3.is_and(e):
                ch = [x for x in e.children() if not x.eq(h)]
                if len(ch) < e.num_args() and not any(c.name in deps(x) for x in ch):
                    return Not(And(*ch)), z3.BoolVal(False)
        return z3.BoolVal(True), e

    def overwrite(self, c, e, h):
        G, V = self.tree(c, e, h)
        if V is None:
            return self.setcf(c, lambda j, idx: c.init(idx), 'unchanged')
        if c.name in deps(G):
            return False
        i = self.i
        iname = i.decl().name()
        if c.arity and c.name in deps(V):
            return self.self_reads(c, G, V, h)
        if c.name in deps(V):
            return False
        if iname not in deps(G):
            if iname not in deps(V):
                return self.setcf(c, lambda j, idx: zite(z3.simplify(And(zint(j) > 0, self.inst(c, G, i, idx))), self.inst(c, V, i, idx), c.init(idx)), 'same-cell')
            return self.setcf(c, lambda j, idx: zite(z3.simplify(And(zint(j) > 0, self.inst(c, G, i, idx))), self.inst(c, V, zint(j) - 1, idx), c.init(idx)), 'same-cell')
        if c.arity:
            s = self.solve_index(c, G)
            if s is not None:
                def cf(j, idx):
                    istar = z3.simplify(self.inst(c, s, i, idx))
                    cond = z3.simplify(And(istar >= 0, istar < zint(j), self.inst(c, G, istar, idx)))
                    return zite(cond, self.inst(c, V, istar, idx), c.init(idx))
                c.istar = s
                return self.setcf(c, cf, 'map')
        if iname not in deps(V):
            return self.setcf(c, lambda j, idx: zite(AnyT(z3.IntVal(0), zint(j), lambda q: self.inst(c, G, q, idx)), self.inst(c, V, i, idx), c.init(idx)), 'any')

        def cf(j, idx):
            j = zint(j)
            r = FirstT(z3.IntVal(0), j, lambda q: self.inst(c, G, j - 1 - q, idx))
            return zite(AnyT(z3.IntVal(0), j, lambda q: self.inst(c, G, q, idx)), self.inst(c, V, j - 1 - r, idx), c.init(idx))
        return self.setcf(c, cf, 'last')

    def conj(self, G):
        if z3.is_and(G):
            for x in G.children():
                yield from self.conj(x)
        elif z3.is_not(G) and z3.is_or(G.arg(0)):
            for x in G.arg(0).children():
                yield from self.conj(Not(x))
        else:
            yield G

    def solve_index(self, c, G):
        """term t(K) with G(i,K) => i == t(K) (for 0<=i<n), or None"""
        i = self.i
        iname = i.decl().name()
        G = z3.simplify(G)
        cands = []
        for x in self.conj(G):
            neg = z3.is_not(x)
            y = x.arg(0) if neg else x
            if not z3.is_app(y) or y.num_args() != 2 or not z3.is_int(y.arg(0)):
                continue
            k = y.decl().kind()
            try:
                p = padd(poly(y.arg(0)), poly(y.arg(1)), -1)
            except PolyTooBig:
                continue
            # coefficient of i as a polynomial
            co, rest, ok = {}, {}, True
            for m, q in p.items():
                pw = dict(m).get(iname, 0)
                others = tuple((a, ee) for a, ee in m if a != iname)
                if any(iname in T.ATOM_DEPS[a] for a, _ in others):
                    ok = False
                    break
                if pw == 1:
                    co[others] = q
                elif pw == 0:
                    rest[others] = q
                else:
                    ok = False
                    break
            if not ok or not co:
                continue
            den = 1
            for q in list(co.values()) + list(rest.values()):
                den = den * q.denominator // np.gcd(den, q.denominator)
            a = self.it.np_.poly_int({m: q * int(den) for m, q in co.items()})
            b = self.it.np_.poly_int({m: -q * int(den) for m, q in rest.items()})
            # a*i = b
            if isinstance(a, int) and a < 0 or (not isinstance(a, int) and len(co) == 1 and list(co.values())[0] < 0):
                a, b = (-a, -b) if isinstance(b, int) or isinstance(a, int) and not isinstance(b, int) else (z3.simplify(-a), z3.simplify(-b))
                a, b = unlit(a), unlit(b)
            if isinstance(a, int) and a == 1:
                cands.append((0 if k == z3.Z3_OP_EQ and not neg else 1, b))
            else:
                za, zb = zint(a), zint(b)
                cands.append((2, zb / za))
                cands.append((3, (zb - 1) / za))
                if not isinstance(a, int):
                    pass
        cands.sort(key=lambda x: x[0])
        for pr, t in cands[:6]:
            t = zint(t)
            if iname in deps(t):
                continue
            t = z3.simplify(t)
            if pr == 0:
                return t
            if self.prove(i == t, G):
                return t
            if pr >= 1:
                for q in (t - 1, t + 1):
                    if self.prove(i == q, G):
                        return z3.simplify(q)
        return None

    def self_reads(self, c, G, V, h):
        """cells computed from other cells of the same array"""
        s = self.solve_index(c, G)
        i = self.i
        if s is None:
            return False
        # apps of c in V
        apps = {}
        for x in subterms(V):
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() == c.name:
                apps[x.get_id()] = x
        if c.name in deps(V) and not apps:
            return False
        V2 = V
        prev = None
        for x in apps.values():
            args = x.children()
            st = self.inst(c, s, i, args)
            written = And(st >= 0, st < i, self.inst(c, G, st, args))
            if self.prove(Not(written), G):
                V2 = z3.substitute(V2, (x, c.init(tuple(args))))
            else:
                if prev is not None:
                    return False
                prev = x
        if prev is None:
            if c.name in deps(V2):
                return False

            def cf(j, idx):
                istar = z3.simplify(self.inst(c, s, i, idx))
                cond = z3.simplify(And(istar >= 0, istar < zint(j), self.inst(c, G, istar, idx)))
                return zite(cond, self.inst(c, V2, istar, idx), c.init(idx))
            return self.setcf(c, cf, 'map-own')
        # prefix scan: V2 = H(K with one coordinate - 1) + d
        args = prev.children()
        ax = None
        for q, (a, k) in enumerate(zip(args, c.K)):
            if poly_eq(a, k) or self.prove(a == k, G):
                continue
            if ax is not None or not (self.prove(a == k - 1, G)):
                return False
            ax = q
        if ax is None:
            return False
        d = self.delta_app(c, V2, prev)
        if d is None or c.name in deps(d):
            return False
        # iteration writing cell K: s(K) must be K[ax] + const
        off = z3.simplify(s - c.K[ax])
        if deps(off) & {k.decl().name() for k in c.K}:
            return False
        # guard must hold for the whole prefix once it holds for the last element
        kk = z3.Int(fresh_name("K"))
        Kp = tuple(kk if q == ax else k for q, k in enumerate(c.K))
        cond_all = self.inst(c, G, kk + off, Kp)
        if not self.prove(cond_all, G, kk + off >= 0, kk <= c.K[ax]):
            return False

        def cf(j, idx):
            istar = z3.simplify(self.inst(c, s, i, idx))
            cond = z3.simplify(And(istar >= 0, istar < zint(j), self.inst(c, G, istar, idx)))
            first = tuple(z3.simplify(z3.IntVal(0) - self.inst(c, off, i, idx) - 1) if q == ax else zint(x) for q, x in enumerate(idx))

            def body(q):
                cell = tuple(z3.simplify(q - self.inst(c, off, i, idx)) if r == ax else zint(x) for r, x in enumerate(idx))
                return self.inst(c, d, q, cell)
            return zite(cond, radd(c.init(first), SumT(z3.IntVal(0), istar + 1, body)), c.init(idx))
        return self.setcf(c, cf, 'scan')

    def delta_app(self, c, e, x):
        if e.eq(x):
            return z3.RealVal(0)
        if z3.is_app_of(e, z3.Z3_OP_ITE):
            if c.name in deps(e.arg(0)):
                return None
            a, b = self.delta_app(c, e.arg(1), x), self.delta_app(c, e.arg(2), x)
            return None if a is None or b is None else zite(e.arg(0), a, b)
        try:
            z = poly_to_z3(padd(poly(e), poly(x), -1))
        except PolyTooBig:
            return None
        return None if c.name in deps(z) else z

    # ------------------------------------------------------------ groups: minimum / maximum search
    def groups(self, todo):
        for c in todo:
            if c.arity or not z3.is_arith(c.e):
                continue
            h = self.happ(c, ())
            r = self.minscan(c, h)
            if r is None:
                continue
            strict, kind, v, force = r
            members = []
            i = self.i
            init = c.init(())
            cond_c = self.cond_of(c.e, h)
            for y in todo:
                if y is c:
                    continue
                hy = self.happ(y, y.K)
                G, V = self.tree(y, y.e, hy)
                if V is None or (deps(V) & self.hnames) - set():
                    continue
                # the guard must be the search condition (and conditions free of carried state)
                rest = []
                hit = False
                for g in self.conj(z3.simplify(G)):
                    if self.same_cond(g, c, h, v, strict, kind, force):
                        hit = True
                    else:
                        rest.append(g)
                if hit and not any(deps(g) & self.hnames for g in rest):
                    members.append((y, rest, V))
            argk = {('MIN', True): 'ARGMIN', ('MIN', False): 'LARGMIN', ('MAX', True): 'ARGMAX'}.get((kind, strict))
            if argk is None:
                continue
            bodyr = lambda q: self.inst(c, v, q, ())

            def better(j):
                """some element beats the initial value"""
                j = zint(j)
                m = MinT(z3.IntVal(0), j, bodyr, kind)
                if force:
                    return z3.simplify(j > 0), m
                a = Val('f', m) if z3.is_real(m) else Val('i', m)
                b = Val('f', init) if z3.is_real(init) else Val('i', init)
                op = {('MIN', True): '<', ('MIN', False): '<=', ('MAX', True): '>'}[(kind, strict)]
                cmpv = compare(op, a, b).re
                return z3.simplify(And(j > 0, cmpv)), m

            def cfc(j, idx):
                b, m = better(j)
                return zite(b, m, init)
            self.setcf(c, cfc, 'search')
            for y, rest, V in members:
                def cfy(j, idx, y=y, rest=rest, V=V):
                    b, _ = better(j)
                    a = MinT(z3.IntVal(0), zint(j), bodyr, argk)
                    g = And(b, *[self.inst(y, g, a, idx) for g in rest])
                    return zite(z3.simplify(g) if not deps(g) & set(T.BINDERS) else g, self.inst(y, V, a, idx), y.init(idx))
                if any(self.i.decl().name() in deps(g) for g in rest):
                    raise Unsupported("search companion with an iteration dependent cell")
                self.setcf(y, cfy, 'search')
            return [c] + [m[0] for m in members]
        return None

    def cond_of(self, e, h):
        return e.arg(0) if z3.is_app_of(e, z3.Z3_OP_ITE) else None

    def minscan(self, c, h):
        e = c.e
        if not z3.is_app_of(e, z3.Z3_OP_ITE):
            return None
        G, V = self.tree(c, e, h)
        if V is None or deps(V) & self.hnames or not z3.is_arith(V):
            return None
        for strict, kind in ((True, 'MIN'), (False, 'MIN'), (True, 'MAX')):
            for force in (False, True):
                if self.same_cond(z3.simplify(G), c, h, V, strict, kind, force):
                    return strict, kind, V, force
        return None

    def same_cond(self, g, c, h, v, strict, kind, force):
        """g is the search condition (with force: or the first iteration)"""
        if strict:
            want = (v < h) if kind == 'MIN' else (v > h)
        else:
            want = (v <= h) if kind == 'MIN' else (v >= h)
        if not force and (bkey(z3.simplify(g)) == bkey(z3.simplify(want)) or bkey(g) == bkey(want) or bkey(neg_norm(g)) == bkey(neg_norm(want))):
            return True
        if c.name not in deps(g) or (deps(g) & self.hnames) - {c.name}:
            return False
        if not self.prove(g == want, self.i > 0):
            return False
        if force:
            return self.prove(g, self.i == 0)
        return self.prove(g == want, self.i == 0)

    # ------------------------------------------------------------ while
    def while_count(self, cond):
        raise Unsupported("while")

    # ------------------------------------------------------------ results
    def finals(self, n):
        out = {}
        n = zint(n)
        it = self.it
        byslot = {}
        for c in self.comps:
            byslot.setdefault(c.sid, {})[c.tag] = c
        npos = it.implied(n > 0)
        for sid, h in self.hav.items():
            cs = byslot.get(sid, {})
            if h.type == 'inv':
                out[sid] = h.at(n)
                continue
            if h.type == 'buffer':
                if not cs:
                    continue
                a, b = cs.get(('buf', 're')), cs.get(('buf', 'im'))
                if a.how == 'unchanged' and (b is None or b.how == 'unchanged'):
                    continue

                def content(idx, a=a, b=b, h=h):
                    z = zidx(cidx(idx))
                    return Val(h.kind, a.cf(n, z), b.cf(n, z) if b is not None else None, h.dtype)
                out[sid] = memo(content)
            elif h.type in ('scalar', 'partial'):
                a, b = cs[('var', 're')], cs.get(('var', 'im'))
                v = Val(h.kind, a.cf(n, ()), b.cf(n, ()) if b is not None else None, h.dt)
                pv = self.post[sid]
                if isinstance(pv, Partial):
                    pv = pv.value
                if isinstance(pv, Val) and pv.dt is not None and h.dt is None:
                    v.dt = pv.dt if dkind(pv.dt) == h.kind else None
                if h.type == 'partial':
                    bd = z3.simplify(cs[('bound', None)].cf(n, ()))
                    out[sid] = v if z3.is_true(bd) or it.implied(bd) else Partial(bd, v)
                else:
                    out[sid] = v
            elif h.type == 'array':
                if not cs:
                    if sid in self.values:
                        out[sid] = self.last(sid, n, npos)
                    continue
                a, b = cs.get(('arr', 're')), cs.get(('arr', 'im'))
                arr = SymArr.from_fn(h.shape, h.post_arr.dtype, lambda idx, a=a, b=b, h=h: Val(h.kind, a.cf(n, zidx(cidx(idx))), b.cf(n, zidx(cidx(idx))) if b is not None else None, h.dtype))
                arr.cls, arr.attrs = h.cls, h.attrs
                out[sid] = arr
            elif h.type == 'list':
                old, x = self.lists[sid]
                if x is None:
                    out[sid] = old
                else:
                    if old:
                        raise Unsupported("append loop on a non-empty list")
                    seq = IndexedSeq(n, lambda k, x=x: self.subval(x, self.i, k))
                    out[sid] = [SeqSplice(seq)]
            else:
                out[sid] = self.last(sid, n, npos)
        return out

    def last(self, sid, n, npos):
        v = self.values[sid]
        init = self.hav[sid].cur
        if isinstance(v, Poison):
            return init
        if isinstance(v, Partial):
            return Poison()
        try:
            x = self.subval(v, self.i, n - 1)
        except Unsupported:
            return Poison()
        if npos:
            return x
        if init is UNDEF:
            return Partial(n > 0, x)
        try:
            return self.it.merge_val(n > 0, x, init)
        except Unmergeable:
            return Poison()

    def subval(self, v, i, k):
        """value v of iteration i, at iteration k, closed forms substituted"""
        k = zint(k)
        r = lambda t: z3.substitute(self.close(self.liftnew(t), i), (i, k))
        if isinstance(v, Val):
            return Val(v.kind, r(v.re), r(v.im) if v.im is not None else None, v.dt)
        if isinstance(v, SymArr):
            if self.new_syms_arr(v):
                raise Unsupported("per-iteration symbol in a value kept after the loop")
            g = v.snap()
            shape = tuple(unlit(r(zint(x))) for x in v.shape)

            def content(idx):
                x = g(idx)
                return Val(x.kind, r(x.re), r(x.im) if x.im is not None else None, x.dt)
            # indices passed in must not be captured by the substitution of i
            a = SymArr.from_fn(shape, v.dtype, lambda idx: content_safe(content, g, idx, self, i, k))
            a.cls = v.cls
            a.attrs = {q: self.subval(w, i, k) for q, w in v.attrs.items()}
            return a
        if isinstance(v, (tuple,)):
            return tuple(self.subval(x, i, k) for x in v)
        if isinstance(v, list):
            return [self.subval(x, i, k) for x in v]
        if isinstance(v, IndexedSeq):
            return IndexedSeq(unlit(r(zint(v.n))), lambda q: self.subval(v.fn(q), i, k))
        if has_sym(v):
            raise Unsupported("value kept after a loop")
        return v

    def new_syms_arr(self, v):
        idx = tuple(z3.Int("K!%d" % q) for q in range(v.ndim))
        x = v.get(tuple(z3.Int(fresh_name("K")) for q in range(v.ndim)))
        t = set(self.new_symbols(self.liftnew(x.re)))
        if x.im is not None:
            t |= self.new_symbols(self.liftnew(x.im))
        return t

    def classification(self):
        cl = {}
        for sid, hs in self.how.items():
            cl[self.slotname(sid)] = sorted(hs)
        for sid in self.values:
            cl[self.slotname(sid)] = ['private']
        for sid in self.lists:
            cl[self.slotname(sid)] = ['append']
        return cl


def content_safe(content, g, idx, solver, i, k):
    tmp = tuple(z3.Int("S!%d" % q) for q in range(len(idx)))
    x = g(tmp)
    r = lambda t: z3.substitute(z3.substitute(solver.close(solver.liftnew(t), i), (i, k)), *[(a, zint(b)) for a, b in zip(tmp, idx)]) if idx else z3.substitute(solver.close(solver.liftnew(t), i), (i, k))
    return Val(x.kind, r(x.re), r(x.im) if x.im is not None else None, x.dt)


def neg_norm(g):
    """not (a <= b) -> b < a ..."""
    if z3.is_not(g):
        x = g.arg(0)
        k = x.decl().kind() if z3.is_app(x) else None
        if k == z3.Z3_OP_LE:
            return x.arg(1) < x.arg(0)
        if k == z3.Z3_OP_LT:
            return x.arg(1) <= x.arg(0)
        if k == z3.Z3_OP_GE:
            return x.arg(0) < x.arg(1)
        if k == z3.Z3_OP_GT:
            return x.arg(0) <= x.arg(1)
    return g


def while_search(it, s, env):
    """while c(state): state steps by constants  ->  trip count is the first iteration where c fails"""
    # a bound for the trip count: a conjunct 'v < L' of the condition with v stepping by +1
    i0 = {}
    test = s.test
    holder = {}
    names = sorted({n.id for b in s.body for n in ast.walk(b) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    b0 = len(it.obls)
    i = FreshInt("w")
    init = {n: env.get(n, UNDEF) for n in names}
    for n in names:
        if not (is_scalar(init[n]) and lift(init[n]).kind in ('i', 'f')):
            raise Unsupported("while loop state")
    # one arbitrary iteration
    hs = {n: z3.Const(fresh_name("h"), KSORT[lift(init[n]).kind]) for n in names}
    mark, fmark = len(it.trail), len(it.facts)
    steps = {}
    try:
        for n in names:
            it.set_slot(env, n, Val(lift(init[n]).kind, hs[n]))

        def th():
            it.exec_block(s.body, env)
        outs = it.merge(it.explore(th))
        if len(outs) != 1 or outs[0].flow != 'normal':
            raise Unsupported("while body")
        for sid, (c, k, v) in outs[0].diff.items():
            if c is not env or k not in names:
                if isinstance(c, Env) and c is not env:
                    continue
                raise Unsupported("while body changes %s" % k)
        for n in names:
            v = outs[0].diff.get((id(env), n), (None, None, Val(lift(init[n]).kind, hs[n])))[2]
            d = z3.simplify(lift(v).re - hs[n])
            if deps(d) & {x.decl().name() for x in hs.values()}:
                raise Unsupported("while step is not constant")
            steps[n] = d
    finally:
        it.rollback(mark)
        del it.facts[fmark:]

    def state(q):
        r = {}
        for n in names:
            v = lift(init[n])
            r[n] = Val(v.kind, z3.simplify(v.re + (q if v.kind == 'i' else z3.ToReal(q)) * steps[n]))
        return r

    # condition at iteration i, with the obligations of evaluating it
    def cond_at(q, facts=()):
        mk, fm = len(it.trail), len(it.facts)
        try:
            for f in facts:
                it.assume(f)
            for n, v in state(q).items():
                it.set_slot(env, n, v)
            c = it.truth(it.eval(test, env))
            return z3.BoolVal(c) if isinstance(c, bool) else c
        finally:
            it.rollback(mk)
            del it.facts[fm:]
    om = len(it.obls)
    c0 = z3.simplify(cond_at(i, [i >= 0]))
    bound = None
    conj = list(c0.children()) if z3.is_and(c0) else [c0]
    iname = i.decl().name()
    for g in conj:
        for x in (g, neg_norm(g)):
            if not z3.is_app(x) or x.num_args() != 2 or not z3.is_int(x.arg(0)):
                continue
            k = x.decl().kind()
            a, b = x.arg(0), x.arg(1)
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b, k = b, a, (z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT)
            if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT):
                continue
            # a - i < b - ...
            r = z3.simplify(a - i)
            r2 = z3.simplify(b - a + i)
            if iname in deps(r2):
                continue
            bound = z3.simplify(r2 + (1 if k == z3.Z3_OP_LE else 0))
        if bound is not None:
            break
    if bound is None:
        raise Unsupported("no bound for while loop")
    if not it.implied(bound >= 0):
        bound = z3.If(bound >= 0, bound, z3.IntVal(0))
    n = FirstT(z3.IntVal(0), bound, lambda q: z3.substitute(Not(c0), (i, q)))
    it.assume(And(n >= 0, n <= bound))
    it.assume(z3.Implies(n < bound, z3.substitute(Not(c0), (i, n))))
    for nme, v in state(n).items():
        it.set_slot(env, nme, v)
    record(it, s, None, 'search', {})
