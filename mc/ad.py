"""Derivatives in the reference model: forward mode, every input element at once."""
import contextlib
import math

import numpy

from . import lang


class Tape:
    """Set while a term is evaluated: whether every operation evaluated was differentiable at its operands."""

    smooth = True


def _g(x):
    return x.g if isinstance(x, Dual) else 0.0


def _same(a, b):
    return numpy.array_equal(numpy.asarray(_g(a)) + 0.0 * _zero(b), numpy.asarray(_g(b)) + 0.0 * _zero(a))


def _zero(x):
    return numpy.zeros_like(x.g) if isinstance(x, Dual) else 0.0


class Dual(float):
    __slots__ = ("g",)

    def __new__(cls, v, g):
        self = float.__new__(cls, v)
        self.g = g
        return self

    def __add__(self, o):
        return Dual(float(self) + float(o), self.g + _g(o))

    def __radd__(self, o):
        return Dual(float(o) + float(self), self.g + _g(o))

    def __sub__(self, o):
        return Dual(float(self) - float(o), self.g - _g(o))

    def __rsub__(self, o):
        return Dual(float(o) - float(self), _g(o) - self.g)

    def __mul__(self, o):
        return Dual(float(self) * float(o), self.g * float(o) + float(self) * _g(o))

    __rmul__ = __mul__

    def __truediv__(self, o):
        x, y = float(self), float(o)
        return Dual(x / y, self.g / y - _g(o) * (x / (y * y)))

    def __rtruediv__(self, o):
        x, y = float(o), float(self)
        return Dual(x / y, -self.g * (x / (y * y)))

    def __neg__(self):
        return Dual(-float(self), -self.g)

    def __abs__(self):
        if float(self) == 0.0:
            Tape.smooth = Tape.smooth and not self.g.any()
        return -self if float(self) < 0.0 else self

    def __pow__(self, o):
        return _pow(self, o)

    def __rpow__(self, o):
        return _pow(o, self)


def _pow(a, b):
    x, y = float(a), float(b)
    r = lang._fpow(x, y)
    g = 0.0
    if isinstance(a, Dual):
        if x == 0.0 and a.g.any():
            Tape.smooth = False
            return r
        g = g + (y * x ** (y - 1.0)) * a.g
    if isinstance(b, Dual) and b.g.any():
        if x <= 0.0:
            Tape.smooth = False
            return r
        g = g + r * math.log(x) * b.g
    return Dual(r, g + _zero(a) + _zero(b))


def _unary(f, d):
    def call(a):
        x = float(a)
        return Dual(f(x), d(x) * a.g) if isinstance(a, Dual) else f(x)

    return call


def _total(f):
    def g(*args):
        if any(a is lang.BOT for a in args):
            return lang.BOT
        try:
            r = lang._norm(f(*args))
        except (ZeroDivisionError, OverflowError, ValueError):
            r = lang.BOT
        if r is lang.BOT or (isinstance(r, Dual) and not numpy.isfinite(r.g).all()):
            Tape.smooth = False
        return r

    return g


def _tie(f):
    def call(a, b):
        if isinstance(a, float) and a == b and not _same(a, b):
            Tape.smooth = False
        return f(a, b)

    return call


OPS = {
    "div": _total(lambda a, b: a / b),
    "pow": _total(_pow),
    "exp": _total(_unary(math.exp, math.exp)),
    "sin": _total(_unary(math.sin, math.cos)),
    "cos": _total(_unary(math.cos, lambda x: -math.sin(x))),
    "tanh": _total(_unary(math.tanh, lambda x: 1.0 - math.tanh(x) ** 2)),
    "min": _total(_tie(lambda a, b: a if a <= b else b)),
    "max": _total(_tie(lambda a, b: a if a >= b else b)),
    "lt": _total(_tie(lambda a, b: float(a) < float(b))),
    "le": _total(_tie(lambda a, b: float(a) <= float(b))),
    "gt": _total(_tie(lambda a, b: float(a) > float(b))),
    "ge": _total(_tie(lambda a, b: float(a) >= float(b))),
    "eq": _total(_tie(lambda a, b: float(a) == float(b))),
    "ne": _total(_tie(lambda a, b: float(a) != float(b))),
    "add": _total(lambda a, b: a + b),
    "sub": _total(lambda a, b: a - b),
    "mul": _total(lambda a, b: a * b),
}


def _hyp(a, b):
    r = math.hypot(a, b)
    return Dual(r, (float(a) / r) * _g(a) + (float(b) / r) * _g(b) + _zero(a) + _zero(b))


def _vmax(xs):
    best = None
    for x in xs:
        best = x if best is None else OPS["max"](best, x)
    return lang.BOT if best is None else best


def _vsum(xs):
    r = 0.0
    for x in xs:
        r = OPS["add"](r, x)
    return r


EXTS = {"hyp": _total(_hyp), "sq": _total(lambda a: a * a), "fma": _total(lambda a, b, c: a * b + c)}
EXTVS = {"vsum": _vsum, "vmax": _vmax}


@contextlib.contextmanager
def _installed():
    saved = dict(lang.OPS), dict(lang.EXTS), dict(lang.EXTVS)
    lang.OPS.update(OPS)
    lang.EXTS.update(EXTS)
    lang.EXTVS.update(EXTVS)
    Tape.smooth = True
    try:
        yield
    finally:
        lang.OPS.update(saved[0])
        lang.EXTS.update(saved[1])
        lang.EXTVS.update(saved[2])


def seed(arrays):
    """The inputs as model values whose floats are variables of their own."""
    total = sum(a.size for a in arrays if a.dtype.kind == "f")
    at = 0
    out = []
    for a in arrays:
        if a.dtype.kind == "f":
            flat = []
            for x in a.reshape(-1).tolist():
                g = numpy.zeros(total)
                g[at] = 1.0
                at += 1
                flat.append(Dual(x, g))
            o = numpy.empty(a.size, dtype=object)
            o[:] = flat
            nested = o.reshape(a.shape).tolist() if a.ndim else flat[0]
        else:
            nested = a.tolist()
        out.append(lang.from_nested(nested, a.ndim, a.shape))
    return out, total


def weights(n):
    """Of the elements of a result in the scalar that is differentiated."""
    return [1.0 + 0.37 * k - 0.011 * k * k if k % 3 else -1.5 - 0.23 * k for k in range(n)]


def gradient(term, arrays):
    """(value, gradients by float input) of the weighted sum of the result; None where that is not differentiable."""
    ins, total = seed(arrays)
    with _installed():
        value = lang.evaluate(term, {}, ins)
        smooth = Tape.smooth
    elements = list(lang.leaves(value))
    if not smooth or any(e is lang.BOT for e in elements):
        return None
    g = numpy.zeros(total)
    for w, e in zip(weights(len(elements)), elements):
        if isinstance(e, Dual):
            g = g + w * e.g
    out, at = [], 0
    for a in arrays:
        if a.dtype.kind == "f":
            out.append(g[at:at + a.size].reshape(a.shape))
            at += a.size
        else:
            out.append(None)
    return value, out
