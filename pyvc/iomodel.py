"""Contract of pickle, zlib and files (trusted): pickle saves an object as what its class's __reduce__ gives and rebuilds it by
__setstate__ of the class named there (the values inside likewise), decompression returns what was compressed, a file gives back
what was written to it."""
import pickle, zlib, builtins
import numpy as np
from .terms import *
from .arrays import *
from .interp import Unsupported, FlowRaise, SymArr, has_sym


class Samples:
    """shape, type and values of an array"""
    def __init__(self, a): self.shape, self.dtype, self.get = a.shape, a.dtype, a.snap()


class Token:
    def __init__(self, kind, what): self.kind, self.what = kind, what


class File:
    def __init__(self, it, fn, mode):
        self.it, self.fn, self.mode = it, fn, mode
        if mode not in ('wb', 'rb'):
            raise Unsupported("file mode %s" % mode)
        if mode == 'wb':
            it.files[fn] = []
        elif fn not in it.files:
            raise FlowRaise(FileNotFoundError(fn), "file not found")

    def write(self, x):
        if self.mode != 'wb':
            raise Unsupported("write to a file open for reading")
        self.it.files[self.fn].append(x)

    def read(self):
        c = self.it.files[self.fn]
        if self.mode != 'rb' or len(c) != 1:
            raise Unsupported("reading a file of %d chunks" % len(c))
        return c[0]

    def close(self): pass


def nd_reduce(it, x):
    return (np.core.multiarray._reconstruct, (x.cls, (0,), b'b'), (1, x.shape, x.dtype, False, Samples(x)))


def nd_setstate(it, x, state):
    if not isinstance(state, tuple) or len(state) != 5 or not isinstance(state[4], Samples):
        raise FlowRaise(TypeError("state"), "state of an array")
    s = state[4]
    n = SymArr.from_fn(s.shape, s.dtype, s.get)
    x.shape, x.dtype, x.buf, x.fwd, x.inv, x.part = n.shape, n.dtype, n.buf, n.fwd, n.inv, n.part


def install_io(it):
    M = it.models
    it.files = {}

    def dump(o):
        if isinstance(o, SymArr):
            r = it.class_attr(o.cls, '__reduce__', o) if o.cls is not np.ndarray else None
            r = it.call(r, [], {}) if r is not None and r is not UNDEF_ else nd_reduce(it, o)
            if r[0] is not np.core.multiarray._reconstruct or len(r) != 3:
                raise Unsupported("pickling by another constructor")
            return Token('object', (r[1], dump(r[2])))
        if isinstance(o, Samples):
            return o
        if isinstance(o, (tuple, list)):
            return type(o)(dump(x) for x in o)
        if isinstance(o, dict):
            return {k: dump(v) for k, v in o.items()}
        return o

    def load(t):
        if isinstance(t, Token):
            (cls, _, _), st = t.what
            st = load(st)
            x = SymArr.from_fn((0,), float, lambda idx: Val('f', z3.RealVal(0)))
            x.cls, x.attrs = cls, {}
            m = it.class_attr(cls, '__setstate__', x) if cls is not np.ndarray else None
            if m is not None and m is not UNDEF_:
                it.call(m, [st], {})
            else:
                nd_setstate(it, x, st)
            return x
        if isinstance(t, (tuple, list)):
            return type(t)(load(x) for x in t)
        if isinstance(t, dict):
            return {k: load(v) for k, v in t.items()}
        return t

    def note():
        it.assumed['pickle follows __reduce__ and __setstate__; zlib and files return what was put in'] = 1

    def dumps(i, o, *a, **k):
        note()
        return Token('pickle', dump(o))

    def loads(i, t, **k):
        if not isinstance(t, Token) or t.kind != 'pickle':
            raise FlowRaise(pickle.UnpicklingError("not a pickle"), "not a pickle")
        return load(t.what)

    def compress(i, t, level=-1, **k):
        if not isinstance(t, Token):
            raise Unsupported("compression of other data")
        if k:
            raise Unsupported("compression options")
        if not i.decide(And(lift(level).as_int() >= -1, lift(level).as_int() <= 9)):
            raise FlowRaise(zlib.error("level"), "compression level")
        return Token('zlib', t)

    def decompress(i, t, **k):
        if not isinstance(t, Token) or t.kind != 'zlib':
            raise FlowRaise(zlib.error("data"), "not compressed")
        return t.what

    M[pickle.dumps], M[pickle.loads], M[zlib.compress], M[zlib.decompress] = dumps, loads, compress, decompress
    M[builtins.open] = lambda i, fn, mode='r', **k: File(i, fn, mode)


from .interp import UNDEF as UNDEF_
