"""Running a real program on a backend and comparing what it returns with the model."""
import math
import warnings

import numpy

from . import lang

warnings.filterwarnings("ignore")

from . import real  # noqa: E402
from ein import (  # noqa: E402
    function,
    interpret_with_naive,
    with_varargs,
    wrap,
)
from ein.phi.type_system import type_from_ndarray  # noqa: E402

numpy.seterr(all="ignore")
BACKENDS = ("naive", "numpy", "torch", "jax")


def to_model(a):
    a = numpy.asarray(a)
    return lang.from_nested(a.tolist(), a.ndim, a.shape)


def to_host(x):
    """Any backend's array as a NumPy array."""
    if isinstance(x, tuple):
        return tuple(to_host(y) for y in x)
    if hasattr(x, "detach"):
        x = x.detach()
    return numpy.asarray(x)


KIND = {"b": "b", "i": "i", "u": "i", "f": "f"}


def mismatch(got, want, kind, rtol=1e-9):
    """None, or a description of how the returned array differs from the model's value."""
    if isinstance(got, tuple):
        return f"a tuple of {len(got)} arrays instead of one array"
    got = to_host(got)
    shape = lang.shape_of(want)
    if got.shape != shape:
        return f"shape {got.shape} instead of {shape}"
    k = KIND.get(got.dtype.kind)
    if kind is not None and k != kind:
        return f"scalar kind {got.dtype} instead of {kind}"
    if got.size == 0:
        return None
    flat = got.reshape(-1).tolist()
    for pos, (g, w) in enumerate(zip(flat, lang.leaves(want))):
        if w is lang.BOT:
            continue
        if kind == "f":
            if g == w:
                continue
            if not (abs(g - w) <= rtol * max(1.0, abs(w))) or math.isinf(g) or math.isinf(w):
                at = numpy.unravel_index(pos, got.shape)
                return f"element {tuple(map(int, at))} is {g!r} instead of {w!r}"
        elif g != w:
            at = numpy.unravel_index(pos, got.shape)
            return f"element {tuple(map(int, at))} is {g!r} instead of {w!r}"
    return None


class Refused(Exception):
    """JAX declined to trace a program whose sizes are not static."""


_JAX_REFUSALS = (
    "Shapes must be 1D sequences of concrete values",
    "Abstract tracer value encountered where concrete value is expected",
    "ConcretizationTypeError",
    "TracerIntegerConversionError",
    "NonConcreteBooleanIndexError",
    "The __index__() method was called on traced array",
    "requires concrete",
    "Array slice indices must have static",
    "TracerArrayConversionError",
    "The __array__() method was called on traced array",
    "was requested to be concrete",
)


def is_jax_refusal(e):
    s = f"{type(e).__name__}: {e}"
    return any(r in s for r in _JAX_REFUSALS)


def caller(term, backend, raw=False):
    """A callable of NumPy arrays; the program is staged once where the backend stages."""
    prog = real.program(term, raw)
    if backend == "naive":

        def call(*arrays):
            types = [type_from_ndarray(a) for a in arrays]
            vs, expr = with_varargs(types, prog)
            return interpret_with_naive(expr, dict(zip(vs, arrays)))

        return call
    f = function(prog)
    if backend == "numpy":
        return f.numpy
    if backend == "torch":
        return f.torch
    if backend == "jax":

        def call_jax(*arrays):
            try:
                return to_host(f.jax(*arrays))
            except Exception as e:
                if is_jax_refusal(e):
                    raise Refused(str(e)[:200])
                raise

        return call_jax
    raise ValueError(backend)


def eval_const(term, backend, arrays, raw=False):
    prog = real.program(term, raw)
    try:
        return wrap(prog(*[wrap(a) for a in arrays])).eval(backend=backend)
    except Exception as e:
        if backend == "jax" and is_jax_refusal(e):
            raise Refused(str(e)[:200])
        raise
