"""Symbolic interpreter for the real functions of the repository: AST of the source file, executed on symbolic
values, with path exploration and merging, loop summarisation (loops.py) and numpy contracts (npmodels.py)."""
import ast, inspect, types, builtins, operator, functools, tokenize, io, os
import numpy as np
import z3
from .terms import *
from . import terms as T
from .arrays import *
from .prover import Ctx, Schema, prove, quick, _check
from . import prover as P


class Infeasible(Exception):
    pass


class Unmergeable(Exception):
    pass


class FlowReturn(BaseException):
    def __init__(self, value): self.value = value


class FlowBreak(BaseException):
    pass


class FlowContinue(BaseException):
    pass


class FlowRaise(BaseException):
    def __init__(self, exc, where=""):
        self.exc, self.where = exc, where


class Undef:
    def __repr__(self): return "UNDEF"


UNDEF = Undef()


class Partial:
    """a variable that is bound only when cond holds"""
    def __init__(self, cond, value): self.cond, self.value = cond, value


class Closure:
    def __init__(self, node, env, glob, name, defaults, kwdefaults, selfobj=None):
        self.node, self.env, self.glob, self.name = node, env, glob, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.__name__ = name


class BoundSym:
    """method bound to a symbolic object"""
    def __init__(self, fn, obj): self.fn, self.obj = fn, obj


class NpMethod:
    def __init__(self, name, obj): self.name, self.obj = name, obj


class SuperProxy:
    def __init__(self, cls, obj, objcls): self.cls, self.obj, self.objcls = cls, obj, objcls


class IndexedSeq:
    """sequence of symbolic length"""
    def __init__(self, n, fn): self.n, self.fn = unlit(n), fn


class SeqSplice:
    """the elements of a list filled by a summarised loop"""
    def __init__(self, seq): self.seq = seq


class SymRange:
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = unlit(lo), unlit(hi), unlit(step)


class Outcome:
    __slots__ = ('conds', 'facts', 'diff', 'flow', 'value')

    def __init__(self, conds, facts, diff, flow, value):
        self.conds, self.facts, self.diff, self.flow, self.value = conds, facts, diff, flow, value

    def cond(self):
        return And(*self.conds)


class Explo:
    def __init__(self, script):
        self.script, self.pos, self.alts, self.taken = script, 0, [], []


class Env(dict):
    """local variables"""
    __slots__ = ('fn',)
    __hash__ = object.__hash__


class Obligation:
    __slots__ = ('label', 'facts', 'goal', 'schemas')

    def __init__(self, label, facts, goal, schemas):
        self.label, self.facts, self.goal, self.schemas = label, facts, goal, schemas


_src_cache = {}


def source_index(path):
    r = _src_cache.get(path)
    if r is None:
        with open(path) as f:
            txt = f.read()
        tree = ast.parse(txt)
        idx = {}
        omp = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                ln = n.lineno
                if isinstance(n, ast.FunctionDef) and n.decorator_list:
                    ln = min(ln, n.decorator_list[0].lineno)
                idx.setdefault((ln, getattr(n, 'name', '<lambda>')), n)
        for i, line in enumerate(txt.splitlines(), 1):
            s = line.strip()
            if s.startswith('#omp'):
                omp[i] = s
        pyth = '#pythran export' in txt
        r = (tree, idx, omp, pyth)
        _src_cache[path] = r
    return r


class Interp:
    compnodes = {}
    def __init__(self, root):
        self.root = root                # directory of the scratch copy
        self.facts = []                 # (term, is_decision)
        self.schemas = []
        self.trail = []
        self.obls = []
        self.exp = None
        self.depth = 0
        self.contracts = {}             # function object -> modular contract (python callable(interp,*args))
        self.models = {}
        self.seen_funcs = {}            # qualname -> file:line of functions interpreted
        self.assumed = {}               # name -> count of models used
        self.loops = []                 # loop classification records
        self.cands = []                 # simulation candidates for loops
        self.loopstack = []
        self.stackfn = []
        self.unroll = 64
        self.strict_asserts = True
        self.steps = 0
        self.fresh_arrays = {}
        self._impl_cache = {}
        from . import npmodels
        npmodels.install(self)
        T.FLOORDIV_SIDE[:] = [lambda b: self.implied(zint(b) > 0)]

    # ------------------------------------------------------------ facts
    def ctx(self):
        return Ctx([f for f, _ in self.facts], self.schemas)

    def assume(self, f, dec=False):
        if isinstance(f, Val):
            f = f.as_bool()
        if f is True:
            return
        if z3.is_true(f):
            return
        self.facts.append((f, dec))

    def implied(self, c, timeout=800):
        """cheap check that the current facts imply c"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = (c.get_id(), tuple(f.get_id() for f, _ in self.facts))
        r = self._impl_cache.get(key)
        if r is None:
            r = self._implied(c, timeout)
            self._impl_cache[key] = r
            T._keep.append(c)
            T._keep.extend(f for f, _ in self.facts)
        return r

    def _implied(self, c, timeout):
        facts = self.relevant_facts(c)
        s, _ = _check(facts, c, 150)
        if s == z3.unsat:
            return True
        ctx = Ctx(facts, [s for s in self.schemas if getattr(s, 'cheap', False)])
        return quick(ctx, c, timeout)

    def relevant_facts(self, c):
        """facts sharing constants (transitively) with c, cheap ones only"""
        ids = set(T.const_ids(c))
        fs = [(f, T.const_ids(f)) for f, _ in self.facts]
        picked = [False] * len(fs)
        changed = True
        while changed:
            changed = False
            for i, (f, ci) in enumerate(fs):
                if not picked[i] and (not ci or ci & ids):
                    picked[i] = True
                    if not ci <= ids:
                        ids |= ci
                        changed = True
        return [f for (f, _), p in zip(fs, picked) if p]

    def refuted(self, c):
        return self.implied(Not(c))

    def oblige(self, label, goal):
        if isinstance(goal, Val):
            goal = goal.as_bool()
        if goal is True or (is_z3(goal) and z3.is_true(z3.simplify(goal))):
            return
        if goal is False:
            goal = z3.BoolVal(False)
        self.obls.append(Obligation(self.where() + label, [f for f, _ in self.facts], goal, list(self.schemas)))

    def where(self):
        return (self.stackfn[-1] + ": ") if self.stackfn else ""

    # ------------------------------------------------------------ mutable state
    def set_slot(self, container, key, value):
        if isinstance(container, Buffer):
            old = container.content
            self.trail.append((container, 'content', old))
            container.content = value
            return
        if isinstance(container, list):
            self.trail.append((container, None, list(container)))
            container[:] = value
            return
        old = container.get(key, UNDEF)
        self.trail.append((container, key, old))
        if value is UNDEF:
            container.pop(key, None)
        else:
            container[key] = value

    def get_slot(self, container, key):
        if isinstance(container, Buffer):
            return container.content
        if isinstance(container, list):
            return list(container)
        return container.get(key, UNDEF)

    def _raw_set(self, container, key, value):
        if isinstance(container, Buffer):
            container.content = value
        elif isinstance(container, list):
            container[:] = value
        elif value is UNDEF:
            container.pop(key, None)
        else:
            container[key] = value

    def collect_diff(self, mark):
        d = {}
        for c, k, old in self.trail[mark:]:
            sid = (id(c), k)
            if sid not in d:
                d[sid] = (c, k, self.get_slot(c, k))
        return d

    def rollback(self, mark):
        while len(self.trail) > mark:
            c, k, old = self.trail.pop()
            self._raw_set(c, k, old)

    def write_buffer(self, buf, content, why=""):
        if buf.readonly:
            raise Unsupported("in-place write to an array with merged aliases")
        self.set_slot(buf, 'content', content)
        self.on_write(buf)

    def on_write(self, buf):
        pass

    # ------------------------------------------------------------ exploration
    def choose(self, conds):
        """pick one of mutually exclusive and exhaustive conditions; returns the index, assumes the condition"""
        ex = self.exp
        if ex is None:
            raise Unsupported("decision outside of an exploration")
        if ex.pos < len(ex.script):
            k = ex.script[ex.pos]
        else:
            feas = [i for i, c in enumerate(conds) if not self.refuted(c)]
            if not feas:
                raise Infeasible()
            k = feas[0]
            for j in feas[1:]:
                ex.alts.append(ex.taken + [j])
        ex.taken.append(k)
        ex.pos += 1
        self.assume(conds[k], True)
        return k

    def known(self, c):
        """True/False if the facts decide c, else None (recorded so that replays take the same way)"""
        ex = self.exp
        if ex is None:
            return True if self.implied(c) else False if self.implied(Not(c)) else None
        if ex.pos < len(ex.script):
            k = ex.script[ex.pos]
        else:
            k = True if self.implied(c) else False if self.implied(Not(c)) else None
        ex.taken.append(k)
        ex.pos += 1
        return k

    def decide(self, c):
        """python bool for a z3 condition, forking the enclosing exploration when needed"""
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known(c)
        if k is not None:
            return k
        return self.choose([c, Not(c)]) == 0

    def explore(self, thunk, base_conds=()):
        outs = []
        stack = [[]]
        saved = self.exp
        n = 0
        try:
            while stack:
                script = stack.pop()
                n += 1
                if n > 256:
                    raise Unsupported("too many paths")
                ex = Explo(script)
                self.exp = ex
                mark, fmark = len(self.trail), len(self.facts)
                smark = len(self.schemas)
                lstk, sstk, depth = len(self.loopstack), len(self.stackfn), self.depth
                flow, v = 'normal', None
                dead = False
                try:
                    for c in base_conds:
                        self.assume(c, True)
                    v = thunk()
                except FlowReturn as r:
                    flow, v = 'return', r.value
                except FlowBreak:
                    flow = 'break'
                except FlowContinue:
                    flow = 'continue'
                except FlowRaise as r:
                    flow, v = 'raise', r
                except Infeasible:
                    dead = True
                except BaseException:
                    self.rollback(mark)
                    del self.facts[fmark:]
                    del self.schemas[smark:]
                    del self.loopstack[lstk:]
                    del self.stackfn[sstk:]
                    self.depth = depth
                    raise
                if not dead:
                    diff = self.collect_diff(mark)
                    fs = self.facts[fmark:]
                    sch = self.schemas[smark:]
                    o = Outcome([f for f, d in fs if d], [f for f, d in fs if not d] , diff, flow, v)
                    outs.append((o, sch))
                self.rollback(mark)
                del self.facts[fmark:]
                del self.schemas[smark:]
                del self.loopstack[lstk:]
                del self.stackfn[sstk:]
                self.depth = depth
                stack.extend(reversed(ex.alts))
        finally:
            self.exp = saved
        # schemas established inside are definitional for fresh symbols: keep them
        for o, sch in outs:
            self.schemas.extend(sch)
        return [o for o, _ in outs]

    def apply_outcome(self, o):
        for c, k, v in o.diff.values():
            self.set_slot(c, k, v)
            if isinstance(c, Buffer):
                self.on_write(c)
        for f in o.facts:
            self.assume(f)

    def merge(self, outs):
        """merge outcomes of equal flow where possible; returns a shorter list"""
        groups = {}
        for o in outs:
            groups.setdefault(o.flow, []).append(o)
        res = []
        for flow, g in groups.items():
            if flow == 'raise':
                res += g
                continue
            cur = g[0]
            rest = []
            for o in g[1:]:
                try:
                    cur = self.merge2(cur, o)
                except Unmergeable:
                    rest.append(o)
            res.append(cur)
            # second chance among the rest
            while rest:
                cur = rest.pop(0)
                nr = []
                for o in rest:
                    try:
                        cur = self.merge2(cur, o)
                    except Unmergeable:
                        nr.append(o)
                rest = nr
                res.append(cur)
        return res

    def merge2(self, a, b):
        ca, cb = a.cond(), b.cond()
        # a distinguishing condition: drop the common prefix
        n = 0
        while n < len(a.conds) and n < len(b.conds) and a.conds[n].eq(b.conds[n]):
            n += 1
        sel = And(*a.conds[n:])
        selb = And(*b.conds[n:])
        if len(b.conds) - n == 1 and z3.is_not(b.conds[n]) and len(a.conds) - n >= 1 and b.conds[n].arg(0).eq(a.conds[n]) and len(a.conds) - n == 1:
            pass
        elif len(selb.sexpr()) < len(sel.sexpr()) and not isinstance(sel, bool):
            # use the simpler selector
            a, b, sel, selb = b, a, selb, sel
        diff = {}
        for sid in list(a.diff) + [s for s in b.diff if s not in a.diff]:
            c, k = (a.diff.get(sid) or b.diff[sid])[:2]
            cur = self.get_slot(c, k)
            va = a.diff[sid][2] if sid in a.diff else cur
            vb = b.diff[sid][2] if sid in b.diff else cur
            diff[sid] = (c, k, self.merge_slot(sel, c, k, va, vb))
        val = self.merge_val(sel, a.value, b.value) if (a.value is not None or b.value is not None) else None
        facts = []
        for f in a.facts:
            facts.append(f if any(f.eq(g) for g in b.facts) else z3.Implies(sel, f))
        for f in b.facts:
            if not any(f.eq(g) for g in a.facts):
                facts.append(z3.Implies(selb, f))
        common = a.conds[:n]
        d = simp_or(sel, selb)
        conds = list(common) + ([] if z3.is_true(d) else [d])
        return Outcome(conds, facts, diff, a.flow, val)

    def merge_slot(self, c, container, key, va, vb):
        if isinstance(container, Buffer):
            if va is vb:
                return va
            return memo_content(lambda idx: vite(c, va(idx), vb(idx)))
        if isinstance(container, list):
            if len(va) != len(vb):
                raise Unmergeable()
            return [self.merge_val(c, x, y) for x, y in zip(va, vb)]
        return self.merge_val(c, va, vb)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNDEF and b is UNDEF:
            return a
        if isinstance(a, Partial) or isinstance(b, Partial) or a is UNDEF or b is UNDEF:
            ca, va = (z3.BoolVal(False), None) if a is UNDEF else (a.cond, a.value) if isinstance(a, Partial) else (z3.BoolVal(True), a)
            cb, vb = (z3.BoolVal(False), None) if b is UNDEF else (b.cond, b.value) if isinstance(b, Partial) else (z3.BoolVal(True), b)
            cond = zite(c, ca, cb) if not (z3.is_true(ca) and z3.is_false(cb)) else c
            if z3.is_false(ca) and z3.is_true(cb):
                cond = Not(c)
            if a is UNDEF:
                return Partial(cond, vb)
            if b is UNDEF:
                return Partial(cond, va)
            return Partial(cond, self.merge_val(c, va, vb))
        if is_scalar(a) and is_scalar(b):
            if not isinstance(a, Val) and not isinstance(b, Val) and type(a) == type(b) and (a == b or a != a and b != b):
                return a
            if lift(a).kind == 'b' and lift(b).kind != 'b' or lift(b).kind == 'b' and lift(a).kind != 'b':
                raise Unmergeable()
            return vite(c, a, b)
        if isinstance(a, (SymArr, np.ndarray)) and isinstance(b, (SymArr, np.ndarray)):
            x, y = as_sym(a), as_sym(b)
            if len(x.shape) != len(y.shape) or x.dtype != y.dtype or x.cls is not y.cls:
                raise Unmergeable()
            if any(not same_int(p, q) for p, q in zip(x.shape, y.shape)):
                raise Unmergeable()
            if x.buf is y.buf and x.fwd is y.fwd and x.part == y.part and x.attrs == y.attrs:
                return a
            attrs = {}
            if set(x.attrs) != set(y.attrs):
                raise Unmergeable()
            for k in x.attrs:
                attrs[k] = self.merge_val(c, x.attrs[k], y.attrs[k])
            sx, sy = x.snap(), y.snap()
            r = SymArr.from_fn(x.shape, x.dtype, lambda idx: vite(c, sx(idx), sy(idx)))
            r.cls, r.attrs = x.cls, attrs
            r.buf.readonly = True
            return r
        if type(a) is type(b) and isinstance(a, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        if isinstance(a, IndexedSeq) and isinstance(b, IndexedSeq) and same_int(a.n, b.n):
            return IndexedSeq(a.n, lambda i: self.merge_val(c, a.fn(i), b.fn(i)))
        if isinstance(a, NpMethod) and isinstance(b, NpMethod) and a.name == b.name and a.obj is b.obj:
            return a
        try:
            if type(a) is type(b) and bool(a == b):
                return a
        except Exception:
            pass
        raise Unmergeable()

    def run_merged(self, thunk, base_conds=()):
        """explore thunk, merge, continue with one outcome (forking outward if several remain)"""
        outs = self.merge(self.explore(thunk, base_conds))
        if not outs:
            raise Infeasible()
        if len(outs) == 1:
            o = outs[0]
            if not base_conds:
                for c in o.conds:
                    self.assume(c)
        else:
            k = self.choose([o.cond() for o in outs])
            o = outs[k]
        self.apply_outcome(o)
        return o

    def finish(self, o):
        if o.flow == 'return':
            raise FlowReturn(o.value)
        if o.flow == 'break':
            raise FlowBreak()
        if o.flow == 'continue':
            raise FlowContinue()
        if o.flow == 'raise':
            raise o.value

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, env):
        for s in stmts:
            self.exec(s, env)

    def exec(self, s, env):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported("step limit")
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement %s" % type(s).__name__)
        return m(s, env)

    def x_Expr(self, s, env):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, env)

    def x_Pass(self, s, env): pass

    def x_Global(self, s, env): raise Unsupported("global")

    def x_Import(self, s, env):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.set_slot(env, a.asname or a.name.split('.')[0], m if a.asname else importlib.import_module(a.name.split('.')[0]))

    def x_ImportFrom(self, s, env):
        import importlib
        base = ('.' * s.level) + (s.module or '')
        pkg = env.fn[1].get('__package__') if env.fn else None
        m = importlib.import_module(base, pkg)
        for a in s.names:
            v = getattr(m, a.name, None)
            if v is None:
                v = importlib.import_module(base + '.' + a.name, pkg)
            self.set_slot(env, a.asname or a.name, v)

    def x_FunctionDef(self, s, env):
        d = [self.eval(x, env) for x in s.args.defaults]
        kd = [self.eval(x, env) if x is not None else None for x in s.args.kw_defaults]
        if s.decorator_list:
            raise Unsupported("decorated inner function")
        self.set_slot(env, s.name, Closure(s, env, env.fn[1], s.name, d, kd))

    def x_Assign(self, s, env):
        v = self.eval(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, env), env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            self.set_slot(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(v, n if not star else None)
            if star:
                k = star[0]
                tail = n - k - 1
                items = items[:k] + [list(items[k:len(items) - tail])] + items[len(items) - tail:]
                for e, x in zip(t.elts, items):
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, env)
                return
            if len(items) != n:
                raise FlowRaise(ValueError("unpack"), "unpack")
            for e, x in zip(t.elts, items):
                self.assign(e, x, env)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            self.setitem(o, idx, v)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            self.setattr(o, t.attr, v)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n=None):
        if isinstance(v, (tuple, list)):
            return list(v)
        if isinstance(v, SymArr):
            k = v.shape[0]
            if not isinstance(k, int):
                if n is not None and self.implied(zint(k) == n):
                    k = n
                else:
                    raise Unsupported("unpacking an array of symbolic length")
            return [self.getitem(v, i) for i in range(k)]
        if isinstance(v, np.ndarray):
            return list(v)
        if isinstance(v, IndexedSeq) and isinstance(v.n, int):
            return [v.fn(i) for i in range(v.n)]
        try:
            return list(v)
        except TypeError:
            raise Unsupported("unpack %r" % (v,))

    def x_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, env)
            v = self.eval(s.value, env)
            r = self.inplace(op, cur, v)
            self.set_slot(env, t.id, r)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, env)
            idx = self.eval_index(t.slice, env)
            cur = self.getitem(o, idx)
            v = self.eval(s.value, env)
            r = self.inplace(op, cur, v)
            self.setitem(o, idx, r)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, env)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, env)
            self.setattr(o, t.attr, self.inplace(op, cur, v))
        else:
            raise Unsupported("augmented target")

    def inplace(self, op, cur, v):
        if isinstance(cur, SymArr) and (cur.ndim > 0):
            r = self.binop(op, cur, v)
            r = as_sym(r)
            if not np.can_cast(r.dtype, cur.dtype, 'same_kind'):
                raise FlowRaise(TypeError("cannot cast in-place result"), "in-place operation")
            self.setitem(cur, (Ellipsis,), r)
            return cur
        if isinstance(cur, list) and op == '+':
            self.set_slot(cur, None, list(cur) + list(v))
            return cur
        if isinstance(cur, np.ndarray) and (isinstance(v, (Val, SymArr))):
            raise Unsupported("in-place update of a concrete array with a symbolic value")
        if isinstance(cur, np.ndarray) and cur.ndim > 0:
            # concrete in-place: keep the aliasing but make it undoable
            raise Unsupported("in-place update of a concrete array")
        return self.binop(op, cur, v)

    def x_Return(self, s, env):
        raise FlowReturn(self.eval(s.value, env) if s.value is not None else None)

    def x_Break(self, s, env): raise FlowBreak()

    def x_Continue(self, s, env): raise FlowContinue()

    def x_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.set_slot(env, t.id, UNDEF)
            else:
                raise Unsupported("del")

    def x_If(self, s, env):
        c = self.truth(self.eval(s.test, env))
        if isinstance(c, bool):
            return self.exec_block(s.body if c else s.orelse, env)
        k = self.known(c)
        if k is not None:
            return self.exec_block(s.body if k else s.orelse, env)

        def th():
            if self.choose([c, Not(c)]) == 0:
                self.exec_block(s.body, env)
            else:
                self.exec_block(s.orelse, env)
        o = self.run_merged(th)
        self.finish(o)

    def x_Assert(self, s, env):
        if not self.strict_asserts or self.stack_pythran:
            return
        c = self.truth(self.eval(s.test, env))
        if c is True:
            return
        if c is False:
            raise FlowRaise(AssertionError("line %d" % s.lineno), "assert line %d" % s.lineno)
        if self.decide(c):
            return
        raise FlowRaise(AssertionError("line %d" % s.lineno), "assert line %d" % s.lineno)

    def x_Raise(self, s, env):
        e = self.eval(s.exc, env) if s.exc is not None else Exception()
        raise FlowRaise(e() if isinstance(e, type) else e, "raise line %d" % s.lineno)

    def x_Try(self, s, env):
        def th():
            self.exec_block(s.body, env)
        o = self.run_merged(th)
        if o.flow == 'raise':
            exc = o.value.exc
            for h in s.handlers:
                typ = self.eval(h.type, env) if h.type is not None else BaseException
                if isinstance(exc, typ):
                    if h.name:
                        self.set_slot(env, h.name, exc)
                    self.exec_block(h.body, env)
                    break
            else:
                self.exec_block(s.finalbody, env)
                raise o.value
            self.exec_block(s.finalbody, env)
            return
        if o.flow == 'normal':
            self.exec_block(s.orelse, env)
        self.exec_block(s.finalbody, env)
        self.finish(o)

    def x_With(self, s, env):
        # np.errstate: has no effect on the values (exact arithmetic); files of the environment contract
        from .iomodel import File
        for w in s.items:
            m = self.eval(w.context_expr, env)
            if isinstance(m, File):
                if w.optional_vars is not None:
                    self.assign(w.optional_vars, m, env)
                continue
            if w.optional_vars is not None or not isinstance(m, np.errstate):
                raise Unsupported("with")
        self.exec_block(s.body, env)

    def x_For(self, s, env):
        from . import loops
        return loops.exec_for(self, s, env)

    def x_While(self, s, env):
        from . import loops
        return loops.exec_while(self, s, env)

    # ------------------------------------------------------------ expressions
    def eval(self, e, env):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env): return e.value

    def e_Name(self, e, env): return self.load_name(e.id, env)

    def load_name(self, n, env):
        v = env.get(n, UNDEF)
        if v is UNDEF:
            par = env.fn[0]
            while par is not None:
                v = par.get(n, UNDEF)
                if v is not UNDEF:
                    break
                par = par.fn[0]
        if v is UNDEF:
            g = env.fn[1]
            if n in g:
                v = g[n]
            elif hasattr(builtins, n):
                v = getattr(builtins, n)
            else:
                raise FlowRaise(NameError(n), "name %s" % n)
        if isinstance(v, Partial):
            if self.decide(v.cond):
                return v.value
            raise FlowRaise(UnboundLocalError(n), "variable %s may be unbound" % n)
        if isinstance(v, Poison):
            raise Unsupported("loop-carried variable %s of unknown form" % n)
        if type(v) is list and len(v) == 1 and type(v[0]) is SeqSplice:
            return v[0].seq
        return v

    def e_Tuple(self, e, env):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out += self.unpack(self.eval(x.value, env))
            else:
                out.append(self.eval(x, env))
        return tuple(out)

    def e_List(self, e, env):
        return list(self.e_Tuple(e, env))

    def e_Set(self, e, env):
        return set(self.e_Tuple(e, env))

    def e_Dict(self, e, env):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, env))
            else:
                d[self.eval(k, env)] = self.eval(v, env)
        return d

    def e_JoinedStr(self, e, env): return "<fstring>"

    def e_Lambda(self, e, env):
        d = [self.eval(x, env) for x in e.args.defaults]
        return Closure(e, env, env.fn[1], '<lambda>', d, [])

    def e_IfExp(self, e, env):
        c = self.truth(self.eval(e.test, env))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, env)
        k = self.known(c)
        if k is not None:
            return self.eval(e.body if k else e.orelse, env)

        def th():
            raise FlowReturn(self.eval(e.body if self.choose([c, Not(c)]) == 0 else e.orelse, env))
        o = self.run_merged(th)
        if o.flow != 'return':
            self.finish(o)
        return o.value

    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And)
        v = None
        acc = []
        for i, x in enumerate(e.values):
            if acc:
                # evaluate the rest under the guard that the previous ones did not decide
                g = And(*acc) if isand else Not(Or(*acc))
                if self.implied(Not(g)):
                    break
                fm = len(self.facts)
                self.facts.append((g, True))
                try:
                    v = self.eval(x, env)
                    c = self.truth(v)
                finally:
                    del self.facts[fm:]
            else:
                v = self.eval(x, env)
                c = self.truth(v)
            if isinstance(c, bool):
                if c != isand:
                    if acc:
                        return Val('b', z3.BoolVal(not isand)) if False else (not isand)
                    return v
                if i == len(e.values) - 1 and not acc:
                    return v
                continue
            acc.append(c)
        if not acc:
            return v
        return Val('b', And(*acc) if isand else Or(*acc))

    def e_UnaryOp(self, e, env):
        v = self.eval(e.operand, env)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else Val('b', Not(c))
        op = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}[type(e.op)]
        return self.unop(op, v)

    def unop(self, op, v):
        if isinstance(v, SymArr):
            return self.np_.ufunc1(lambda x: unop(op, x), v, None)
        return unop(op, v)

    def e_BinOp(self, e, env):
        a = self.eval(e.left, env)
        b = self.eval(e.right, env)
        return self.binop(OPS[type(e.op)], a, b)

    def binop(self, op, a, b):
        if isinstance(a, (SymArr, Val)) or isinstance(b, (SymArr, Val)):
            if isinstance(a, (list, tuple)) and isinstance(b, (Val, int)) and op == '*':
                return self.repeat_seq(a, b)
            if isinstance(a, str):
                return "<str>"
            return self.np_.binop(op, a, b)
        if op == '%' and isinstance(a, str):
            try:
                return a % b
            except Exception:
                return "<str>"
        try:
            return T._pyop(op, a, b)
        except (TypeError, ZeroDivisionError, ValueError) as ex:
            raise FlowRaise(ex, str(ex))

    def repeat_seq(self, a, n):
        n = unlit(n)
        if isinstance(n, int):
            return a * n
        m = len(a)
        if m == 1:
            return IndexedSeq(n, lambda i: a[0])
        raise Unsupported("sequence repetition by a symbolic count")

    def e_Compare(self, e, env):
        l = self.eval(e.left, env)
        res = None
        for op, r in zip(e.ops, e.comparators):
            rv = self.eval(r, env)
            c = self.compare(op, l, rv)
            if res is None:
                res = c
            else:
                ca, cb = self.truth(res), self.truth(c)
                if isinstance(ca, bool):
                    res = c if ca else False
                elif isinstance(cb, bool):
                    res = res if cb else False
                else:
                    res = Val('b', And(ca, cb))
            l = rv
        return res

    def compare(self, op, a, b):
        k = type(op)
        if k is ast.Is or k is ast.IsNot:
            r = a is b
            if isinstance(a, SymArr) and isinstance(b, SymArr):
                r = a is b
            return r if k is ast.Is else not r
        if k in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            if isinstance(r, bool):
                return r if k is ast.In else not r
            return Val('b', r if k is ast.In else Not(r))
        o = CMPS[k]
        if isinstance(a, (SymArr, Val)) or isinstance(b, (SymArr, Val)):
            if a is None or b is None or isinstance(a, str) or isinstance(b, str):
                return o == '!='
            if isinstance(a, (tuple, list)) and isinstance(b, SymArr) or isinstance(b, (tuple, list)) and isinstance(a, SymArr):
                return self.np_.cmp(o, a, b)
            return self.np_.cmp(o, a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and o in ('==', '!='):
            if len(a) != len(b) or type(a) is not type(b):
                return o == '!='
            cs = []
            for x, y in zip(a, b):
                c = self.truth(self.compare(ast.Eq(), x, y))
                if c is False:
                    return o == '!='
                if c is not True:
                    cs.append(c)
            if not cs:
                return o == '=='
            return Val('b', And(*cs) if o == '==' else Not(And(*cs)))
        try:
            return {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge, '==': operator.eq, '!=': operator.ne}[o](a, b)
        except TypeError as ex:
            raise FlowRaise(ex, str(ex))

    def contains(self, seq, x):
        if isinstance(seq, (tuple, list, set, frozenset)) and (isinstance(x, Val) or any(isinstance(y, Val) for y in seq)):
            cs = []
            for y in seq:
                c = self.truth(self.compare(ast.Eq(), x, y))
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
            return Or(*cs) if cs else False
        if isinstance(seq, SymArr):
            raise Unsupported("membership in symbolic array")
        return x in seq

    def truth(self, v):
        """-> bool or z3 Bool"""
        if isinstance(v, bool):
            return v
        if isinstance(v, Val):
            t = z3.simplify(v.as_bool())
            if z3.is_true(t):
                return True
            if z3.is_false(t):
                return False
            return v.as_bool()
        if isinstance(v, SymArr):
            if v.size == 1 or v.ndim == 0:
                return self.truth(v.get((0,) * v.ndim))
            raise FlowRaise(ValueError("truth value of an array"), "truth value of an array")
        if isinstance(v, IndexedSeq):
            return zint(v.n) > 0
        try:
            return bool(v)
        except ValueError as ex:
            raise FlowRaise(ex, "truth value")

    def e_Subscript(self, e, env):
        o = self.eval(e.value, env)
        idx = self.eval_index(e.slice, env)
        return self.getitem(o, idx)

    def eval_index(self, s, env):
        if isinstance(s, ast.Slice):
            return self.e_Slice(s, env)
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, env) for x in s.elts)
        return self.eval(s, env)

    def e_Slice(self, s, env):
        g = lambda x: None if x is None else self.eval(x, env)
        return slice(g(s.lower), g(s.upper), g(s.step))

    def e_Starred(self, e, env): raise Unsupported("starred")

    def getitem(self, o, idx):
        if isinstance(o, SymArr):
            return self.np_.getitem(o, idx)
        if o is np.mgrid and has_sym(idx):
            return self.np_.mgrid(idx)
        if isinstance(o, np.ndarray):
            if has_sym(idx):
                return self.np_.getitem(as_sym(o), idx)
            try:
                return o[idx]
            except IndexError as ex:
                raise FlowRaise(ex, "index out of range")
        if isinstance(o, (list, tuple)):
            if isinstance(idx, slice):
                return o[slice(*[unlit(x) if x is not None else None for x in (idx.start, idx.stop, idx.step)])]
            i = unlit(idx)
            if isinstance(i, int):
                try:
                    return o[i]
                except IndexError as ex:
                    raise FlowRaise(ex, "list index")
            if not o:
                raise FlowRaise(IndexError("empty"), "list index")
            self.oblige("list index in range", And(zint(i) >= -len(o), zint(i) < len(o)))
            r = o[-1]
            for k in range(len(o) - 1):
                r = self.merge_val(Or(zint(i) == k, zint(i) == k - len(o)), o[k], r)
            return r
        if isinstance(o, IndexedSeq):
            i = unlit(idx)
            return o.fn(i)
        if isinstance(o, SymRange):
            return lift(iadd(o.lo, imul(idx, o.step)))
        if isinstance(o, dict):
            if isinstance(idx, Val):
                raise Unsupported("symbolic dict key")
            try:
                return o[idx]
            except KeyError as ex:
                raise FlowRaise(ex, "key")
        if isinstance(o, (Val, np.generic)) and idx in ((), Ellipsis):
            return o
        if has_sym(idx):
            raise Unsupported("subscript of %s" % type(o))
        if isinstance(o, ModelCallable):
            return o.getitem(self, idx)
        try:
            return o[idx]
        except TypeError as ex:
            raise FlowRaise(ex, "subscript")

    def setitem(self, o, idx, v):
        if isinstance(o, SymArr):
            return self.np_.setitem(o, idx, v)
        if isinstance(o, np.ndarray):
            raise Unsupported("store into a concrete array")
        if isinstance(o, list):
            i = unlit(idx)
            if not isinstance(i, int):
                raise Unsupported("store at a symbolic list index")
            n = list(o)
            n[i] = v
            return self.set_slot(o, None, n)
        if isinstance(o, dict):
            return self.set_slot(o, idx, v)
        raise Unsupported("item assignment on %s" % type(o))

    def e_Attribute(self, e, env):
        return self.getattr(self.eval(e.value, env), e.attr)

    def getattr(self, o, name):
        if isinstance(o, SymArr):
            return self.sym_getattr(o, name)
        if isinstance(o, Val):
            if name in ('real', 'imag'):
                return getattr(o, name)
            if name == 'dtype':
                return o.dtype
            if name == 'shape':
                return ()
            if name in ('ndim',):
                return 0
            if name == 'size':
                return 1
            return NpMethod(name, o)
        if isinstance(o, np.ndarray) and name in self.np_.ARRAY_METHODS and not isinstance(getattr(o, name, None), (int, tuple, np.ndarray, np.dtype)):
            return NpMethod(name, o)
        if isinstance(o, SuperProxy):
            return self.super_getattr(o, name)
        if isinstance(o, (IndexedSeq, SymRange)):
            if name == 'append':
                raise Unsupported("append on symbolic list")
            raise Unsupported("attribute %s of symbolic sequence" % name)
        if isinstance(o, list) and name in ('append', 'extend', 'insert', 'pop'):
            return BoundSym(name, o)
        if isinstance(o, dict) and name in ('update', 'pop', 'setdefault'):
            return BoundSym(name, o)
        if isinstance(o, SymObj):
            if name in o.attrs:
                return o.attrs[name]
            return self.class_attr(o.cls, name, o)
        if isinstance(o, type) and self.is_ours_cls(o):
            return self.type_getattr(o, name)
        try:
            return getattr(o, name)
        except AttributeError as ex:
            raise FlowRaise(ex, "attribute %s" % name)

    def is_ours_cls(self, c):
        try:
            m = inspect.getmodule(c)
            return m is not None and m.__name__.startswith('qampy')
        except Exception:
            return False

    def type_getattr(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(d, classmethod):
                    return BoundSym(d.__func__, cls)
                if isinstance(d, staticmethod):
                    return d.__func__
                return getattr(cls, name) if not isinstance(d, types.FunctionType) else d
        return getattr(cls, name)

    def class_attr(self, cls, name, obj, start=None):
        mro = list(cls.__mro__)
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if c is np.ndarray or c is object:
                break
            if name in c.__dict__:
                d = c.__dict__[name]
                if isinstance(d, property):
                    return self.call(d.fget, [obj], {})
                if isinstance(d, classmethod):
                    return BoundSym(d.__func__, cls)
                if isinstance(d, staticmethod):
                    return d.__func__
                if isinstance(d, types.FunctionType):
                    return BoundSym(d, obj)
                return d
        return UNDEF

    def sym_getattr(self, o, name):
        if name == '__class__':
            return o.cls
        if o.cls is not np.ndarray:
            # properties take precedence over instance attributes, plain class attributes do not
            for c in o.cls.__mro__:
                if c is np.ndarray:
                    break
                if name in c.__dict__ and isinstance(c.__dict__[name], property):
                    return self.call(c.__dict__[name].fget, [o], {})
            if name in o.attrs:
                return o.attrs[name]
            r = self.class_attr(o.cls, name, o)
            if r is not UNDEF:
                return r
        elif name in o.attrs:
            return o.attrs[name]
        r = self.np_.arr_attr(o, name)
        if r is not UNDEF:
            return r
        raise FlowRaise(AttributeError(name), "attribute %s" % name)

    def super_getattr(self, s, name):
        obj = s.obj
        cls = s.objcls
        r = self.class_attr(cls, name, obj, start=s.cls)
        if r is not UNDEF:
            return r
        if isinstance(obj, SymArr):
            if name == '__getitem__':
                return lambda *a: None
            if name in ('__reduce__', '__setstate__'):
                from . import iomodel
                f = iomodel.nd_reduce if name == '__reduce__' else iomodel.nd_setstate
                return ModelCallable(lambda it, *a: f(it, obj, *a))
            r = self.np_.arr_attr(obj, name)
            if r is not UNDEF:
                return r
        raise Unsupported("super().%s" % name)

    def setattr(self, o, name, v):
        if isinstance(o, SymArr):
            if o.cls is not np.ndarray:
                for c in o.cls.__mro__:
                    if c is np.ndarray:
                        break
                    if name in c.__dict__ and isinstance(c.__dict__[name], property):
                        d = c.__dict__[name]
                        if d.fset is None:
                            raise FlowRaise(AttributeError(name), "attribute %s" % name)
                        return self.call(d.fset, [o, v], {})
            elif name not in ('shape', 'real', 'imag'):
                raise FlowRaise(AttributeError(name), "attribute of plain array")
            if name in ('shape', 'strides', 'dtype'):
                raise Unsupported("assignment to array.%s" % name)
            if name in ('real', 'imag'):
                return self.setitem(self.sym_getattr(o, name), (Ellipsis,), v)
            return self.set_slot(o.attrs, name, v)
        if isinstance(o, SymObj):
            return self.set_slot(o.attrs, name, v)
        raise Unsupported("attribute assignment on %s" % type(o))

    # comprehension ---------------------------------------------------
    def e_ListComp(self, e, env):
        return self.comp(e, env)

    def e_GeneratorExp(self, e, env):
        return self.comp(e, env)

    def e_DictComp(self, e, env):
        out = {}
        env2 = Env(); env2.fn = (env, env.fn[1])
        def rec(gs):
            if not gs:
                out[self.eval(e.key, env2)] = self.eval(e.value, env2)
                return
            g = gs[0]
            for x in self.unpack(self.iterate(self.eval(g.iter, env2))):
                self.assign(g.target, x, env2)
                if all(self.decide(self.truth(self.eval(c, env2))) for c in g.ifs):
                    rec(gs[1:])
        rec(e.generators)
        return out

    def comp(self, e, env):
        env2 = Env()
        env2.fn = (env, env.fn[1])

        def rec(gs):
            if not gs:
                return [self.eval(e.elt, env2)]
            g = gs[0]
            it = self.iterate(self.eval(g.iter, env2))
            out = []
            if isinstance(it, IndexedSeq):
                if not isinstance(it.n, int) and len(gs) == 1 and not g.ifs:
                    # same as appending in a loop
                    nm = "_comp%d" % id(e)
                    loc = lambda x: ast.fix_missing_locations(ast.copy_location(x, e))
                    name = lambda c: ast.Name(id=nm, ctx=c)
                    if id(e) not in self.compnodes:
                        self.compnodes[id(e)] = (e, loc(ast.Assign(targets=[name(ast.Store())], value=ast.List(elts=[], ctx=ast.Load()))), loc(ast.For(
                            target=g.target, iter=g.iter, orelse=[],
                            body=[ast.Expr(ast.Call(func=ast.Attribute(value=name(ast.Load()), attr='append', ctx=ast.Load()), args=[e.elt], keywords=[]))])))
                    _, init, loop = self.compnodes[id(e)]
                    self.exec(init, env2)
                    self.exec(loop, env2)
                    return self.load_name(nm, env2)
                if not isinstance(it.n, int):
                    raise Unsupported("comprehension over a symbolic sequence")
                it = [it.fn(i) for i in range(it.n)]
            for x in it:
                self.assign(g.target, x, env2)
                ok = True
                for c in g.ifs:
                    if not self.decide(self.truth(self.eval(c, env2))):
                        ok = False
                        break
                if ok:
                    out += rec(gs[1:])
            return out
        return rec(e.generators)

    def iterate(self, v):
        """-> python list, or IndexedSeq"""
        if isinstance(v, (list, tuple, range, str)):
            return list(v)
        if isinstance(v, (dict, set, zip, enumerate, map)):
            return list(v)
        if isinstance(v, SymRange):
            n = range_len(self, v)
            return IndexedSeq(n, lambda i: lift(iadd(v.lo, imul(i, v.step)))) if not isinstance(n, int) else \
                [lift_int(iadd(v.lo, imul(i, v.step))) for i in range(n)] if n <= 4096 else IndexedSeq(n, lambda i: lift(iadd(v.lo, imul(i, v.step))))
        if isinstance(v, IndexedSeq):
            if isinstance(v.n, int) and v.n <= 4096:
                return [v.fn(i) for i in range(v.n)]
            return v
        if isinstance(v, SymArr):
            n = v.shape[0]
            if isinstance(n, int):
                return [self.getitem(v, i) for i in range(n)]
            return IndexedSeq(n, lambda i: self.getitem(v, lift(i)))
        if isinstance(v, np.ndarray):
            return list(v)
        try:
            return list(v)
        except TypeError as ex:
            raise FlowRaise(ex, "iteration")

    # ------------------------------------------------------------ calls
    def e_Call(self, e, env):
        f = self.eval(e.func, env)
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += self.unpack(self.eval(a.value, env))
            else:
                args.append(self.eval(a, env))
        for k in e.keywords:
            if k.arg is None:
                kw.update(self.eval(k.value, env))
            else:
                kw[k.arg] = self.eval(k.value, env)
        if f is super and not args:
            fr = env
            while fr is not None and '__class__cell' not in fr:
                fr = fr.fn[0]
            if fr is None:
                raise Unsupported("super()")
            return SuperProxy(fr['__class__cell'], fr['__self__cell'], obj_cls(fr['__self__cell']))
        return self.call(f, args, kw)

    @property
    def stack_pythran(self):
        return bool(self._pyth and self._pyth[-1])

    _pyth = []

    def call(self, f, args, kw=None):
        kw = kw or {}
        if isinstance(f, BoundSym):
            if isinstance(f.fn, str):
                return self.container_method(f.obj, f.fn, args, kw)
            return self.call(f.fn, [f.obj] + list(args), kw)
        if isinstance(f, NpMethod):
            return self.np_.method(f.obj, f.name, args, kw)
        if isinstance(f, Closure):
            return self.call_node(f.node, f.env, f.glob, f.name, args, kw, f.defaults, f.kwdefaults, False, None)
        if isinstance(f, functools.partial):
            return self.call(f.func, list(f.args) + list(args), {**f.keywords, **kw})
        key = hashable(f)
        if key is not None:
            c = self.contracts.get(key)
            if c is not None:
                return c(self, *args, **kw)
            m = self.models.get(key)
            if m is not None:
                r = m(self, *args, **kw)
                if r is not NotImplemented:
                    return r
        if isinstance(f, types.MethodType):
            if isinstance(f.__func__, types.FunctionType) and self.is_ours(f.__func__):
                return self.call(f.__func__, [f.__self__] + list(args), kw)
        if isinstance(f, type) and self.is_ours_cls(f) and not issubclass(f, BaseException):
            return self.construct(f, args, kw)
        if isinstance(f, types.FunctionType) and self.is_ours(f):
            if not has_sym(args) and not has_sym(list(kw.values())) and not self.force_interp(f):
                pass
            return self.call_function(f, args, kw)
        if not has_sym(args) and not has_sym(list(kw.values())):
            if isinstance(f, ModelCallable):
                return f(self, *args, **kw)
            try:
                return f(*args, **kw)
            except (Unsupported, Infeasible):
                raise
            except Exception as ex:
                raise FlowRaise(ex, "%s: %s" % (getattr(f, '__name__', f), ex))
        if isinstance(f, ModelCallable):
            return f(self, *args, **kw)
        if isinstance(f, types.BuiltinMethodType) and isinstance(f.__self__, str) and f.__name__ == 'format':
            return f.__self__
        raise Unsupported("no contract for external function %s" % (getattr(f, '__module__', '') or '') + "." + getattr(f, '__name__', str(f)))

    def force_interp(self, f):
        return True

    def construct(self, cls, args, kw):
        new = None
        for c in cls.__mro__:
            if c in (object, np.ndarray):
                break
            if '__new__' in c.__dict__:
                d = c.__dict__['__new__']
                new = d.__func__ if isinstance(d, staticmethod) else d
                break
        if new is not None:
            return self.call(new, [cls] + list(args), kw)
        raise Unsupported("construction of %s" % cls.__name__)

    def is_ours(self, f):
        try:
            return f.__code__.co_filename.startswith(self.root)
        except AttributeError:
            return False

    def container_method(self, obj, name, args, kw):
        if isinstance(obj, list):
            if name == 'append':
                return self.set_slot(obj, None, list(obj) + [args[0]])
            if name == 'extend':
                return self.set_slot(obj, None, list(obj) + self.unpack(args[0]))
            if name == 'insert':
                n = list(obj); n.insert(args[0], args[1])
                return self.set_slot(obj, None, n)
            if name == 'pop':
                n = list(obj); r = n.pop(*args)
                self.set_slot(obj, None, n)
                return r
        if isinstance(obj, dict):
            if name == 'pop':
                if args[0] in obj:
                    r = obj[args[0]]
                    self.set_slot(obj, args[0], UNDEF)
                    return r
                if len(args) > 1:
                    return args[1]
                raise FlowRaise(KeyError(args[0]), "pop")
            if name == 'update':
                src = dict(args[0]) if args else {}
                src.update(kw)
                for k, v in src.items():
                    self.set_slot(obj, k, v)
                return None
            if name == 'setdefault':
                if args[0] not in obj:
                    self.set_slot(obj, args[0], args[1] if len(args) > 1 else None)
                return obj[args[0]]
        raise Unsupported("container method")

    def func_node(self, f):
        code = f.__code__
        tree, idx, omp, pyth = source_index(code.co_filename)
        n = idx.get((code.co_firstlineno, code.co_name))
        if n is None:
            raise Unsupported("source of %s not found" % f.__name__)
        return n, pyth

    def call_function(self, f, args, kw):
        node, pyth = self.func_node(f)
        rel = os.path.relpath(f.__code__.co_filename, self.root)
        self.seen_funcs["%s:%s" % (rel, f.__qualname__)] = f.__code__.co_firstlineno
        clos = None
        cells = {}
        if f.__closure__:
            for n, c in zip(f.__code__.co_freevars, f.__closure__):
                try:
                    cells[n] = c.cell_contents
                except ValueError:
                    pass
        kd = f.__kwdefaults__ or {}
        return self.call_node(node, cells, f.__globals__, f.__qualname__, args, kw, list(f.__defaults__ or ()), kd, pyth, cells.get('__class__'))

    def call_node(self, node, outer, glob, name, args, kw, defaults, kwdefaults, pyth, cellcls):
        if self.depth > 40:
            raise Unsupported("recursion too deep")
        env = Env()
        par = None
        if isinstance(outer, Env):
            par = outer
        elif outer:
            par = Env(outer)
            par.fn = (None, glob)
        env.fn = (par, glob)
        self.bind(node.args, env, args, kw, defaults, kwdefaults, name)
        if cellcls is not None and args:
            env['__class__cell'] = cellcls
            env['__self__cell'] = args[0]
        body = node.body

        def th():
            self.depth += 1
            self.stackfn.append(name)
            Interp._pyth = self._pyth + [pyth]
            saved = self._pyth
            try:
                if isinstance(node, ast.Lambda):
                    raise FlowReturn(self.eval(body, env))
                self.exec_block(body, env)
            finally:
                Interp._pyth = saved[:-1]
                self.depth -= 1
                if self.stackfn:
                    self.stackfn.pop()
        o = self.run_merged(th)
        if o.flow == 'return':
            return o.value
        if o.flow == 'normal':
            return None
        self.finish(o)

    def bind(self, a, env, args, kw, defaults, kwdefaults, name):
        kw = dict(kw)
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(pos) and a.vararg is None:
            raise FlowRaise(TypeError("%s() takes %d positional arguments but %d were given" % (name, len(pos), len(args))), "call of %s" % name)
        for n, v in zip(pos, args):
            env[n] = v
        nd = len(defaults)
        for i, n in enumerate(pos):
            if n in env:
                if n in kw:
                    raise FlowRaise(TypeError("multiple values for %s" % n), "call of %s" % name)
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif i >= len(pos) - nd:
                env[n] = defaults[i - (len(pos) - nd)]
            else:
                raise FlowRaise(TypeError("%s() missing argument %s" % (name, n)), "call of %s" % name)
        if a.vararg is not None:
            env[a.vararg.arg] = tuple(args[len(pos):])
        for i, k in enumerate(a.kwonlyargs):
            if k.arg in kw:
                env[k.arg] = kw.pop(k.arg)
            elif isinstance(kwdefaults, dict):
                if k.arg not in kwdefaults:
                    raise FlowRaise(TypeError("missing %s" % k.arg), "call of %s" % name)
                env[k.arg] = kwdefaults[k.arg]
            else:
                env[k.arg] = kwdefaults[i]
        if a.kwarg is not None:
            env[a.kwarg.arg] = kw
        elif kw:
            raise FlowRaise(TypeError("%s() got an unexpected keyword argument %s" % (name, list(kw)[0])), "call of %s" % name)


class Poison:
    def __init__(self, why=""): self.why = why


class SymObj:
    """object of a repository class that is not an array"""
    def __init__(self, cls, attrs): self.cls, self.attrs = cls, attrs


class ModelCallable:
    """callable defined by the contracts of the environment (e.g. np.fft.fft)"""
    def __init__(self, fn, name="model"): self.fn, self.__name__ = fn, name

    def __call__(self, interp, *a, **k): return self.fn(interp, *a, **k)


def obj_cls(o):
    if isinstance(o, SymArr) or isinstance(o, SymObj):
        return o.cls
    if isinstance(o, type):
        return o
    return type(o)


def hashable(f):
    try:
        hash(f)
        return f
    except TypeError:
        return None


def has_sym(x, depth=0):
    if isinstance(x, (Val, SymArr, IndexedSeq, SymRange, SymObj, Closure, Poison, Partial, BoundSym, NpMethod)):
        return True
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x)
    if isinstance(x, dict) and depth < 6:
        return any(has_sym(y, depth + 1) for y in x.values())
    if isinstance(x, slice):
        return has_sym(x.start) or has_sym(x.stop) or has_sym(x.step)
    return False


def as_sym(a):
    if isinstance(a, SymArr):
        return a
    return const_array(a)


def same_int(a, b):
    a, b = unlit(a), unlit(b)
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return poly_eq(zint(a), zint(b))


def lift_int(x):
    return x if isinstance(x, int) else lift(x)


def simp_or(a, b):
    if isinstance(a, bool) or isinstance(b, bool):
        return Or(a, b)
    if z3.is_not(a) and a.arg(0).eq(b) or z3.is_not(b) and b.arg(0).eq(a):
        return z3.BoolVal(True)
    return z3.simplify(Or(a, b))


def memo_content(fn):
    return memo(fn)


def range_len(it, r):
    """number of elements of a range with concrete step"""
    st = r.step
    if not isinstance(st, int):
        if it.implied(zint(st) > 0):
            n = zite_max0(it, idiv_term(zint(isub(iadd(r.hi, isub(st, 1)), r.lo)), zint(st)))
            return unlit(n)
        raise Unsupported("range with symbolic step of unknown sign")
    if st == 0:
        raise FlowRaise(ValueError("range step"), "range")
    if st > 0:
        d = isub(r.hi, r.lo)
    else:
        d = isub(r.lo, r.hi)
        st = -st
    if st != 1:
        d = unlit(idiv_term(zint(iadd(d, st - 1)), z3.IntVal(st)))
    return zite_max0(it, d)


def zite_max0(it, d):
    d = unlit(d)
    if isinstance(d, int):
        return max(d, 0)
    if it.implied(d >= 0):
        return d
    return z3.If(d >= 0, d, z3.IntVal(0))


OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
       ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@'}
CMPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}
