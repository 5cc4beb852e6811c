"""Storage: every program of the families on every way to store its inputs gives the value the model gives for their contents."""
import itertools

import numpy

from mc import execm, fam, famfold, lang, real, runners  # noqa: F401
from mc.execm import Refused

# large families are thinned: every n-th program
STRIDE = {"comprehensions/pairs": 3, "comprehensions/inner": 3, "comprehensions/iota": 5, "comprehensions/generic": 5,
          "indexing/chains": 3, "indexing/two": 3, "folds/steps": 5, "folds/kinds": 6, "folds/batched": 10,
          "folds/contractions": 3, "folds/nested-contractions": 3, "folds/shifted-contractions": 3, "folds/vectors": 4,
          "folds/records": 3, "folds/folds-in-folds": 4, "folds/contraction-algebra": 6, "folds/resized": 3, "indexing/own": 3,
          "indexing/extents": 6, "indexing/carried": 4}


def fortran(a):
    return numpy.asfortranarray(a)


def strided(a):
    b = numpy.zeros(tuple(2 * d + 1 for d in a.shape), a.dtype)
    b[...] = numpy.array(99).astype(a.dtype)
    v = b[tuple(slice(1, 2 * d + 1, 2) for d in a.shape)]
    v[...] = a
    return v


def reversed_(a):
    s = (slice(None, None, -1),) * a.ndim
    return numpy.ascontiguousarray(a[s])[s] if a.ndim else a


def reversed_last(a):
    if not a.ndim:
        return a
    s = (Ellipsis, slice(None, None, -1))
    return numpy.array(a[s])[s]


def offset(a):
    b = numpy.full(tuple(d + 3 for d in a.shape), 77).astype(a.dtype)
    v = b[tuple(slice(2, d + 2) for d in a.shape)]
    v[...] = a
    return v


def rolled(a):
    """Axes stored in rotated order."""
    if a.ndim < 2:
        return a
    axes = tuple(range(1, a.ndim)) + (0,)
    inv = tuple(numpy.argsort(axes))
    return numpy.ascontiguousarray(a.transpose(axes)).transpose(inv)


def read_only(a):
    a = a.copy()
    a.flags.writeable = False
    return a


def borrowed(a):
    return numpy.frombuffer(a.tobytes() or b"\0" * 8, dtype=a.dtype, count=a.size).reshape(a.shape)


def unaligned(a):
    raw = numpy.zeros(a.nbytes + 1 + a.itemsize, dtype=numpy.uint8)
    v = numpy.ndarray(a.shape, a.dtype, raw.data, offset=1)
    v[...] = a
    return v


def zero_stride(a):
    """A broadcast view, where the contents allow it (see shared())."""
    if not a.ndim or not a.shape[0]:
        return a
    return numpy.broadcast_to(a[:1].copy(), a.shape)


def narrow(a):
    return a.astype({"f": numpy.float32, "i": numpy.int32, "b": numpy.bool_}[a.dtype.kind])


def narrower(a):
    return a.astype({"f": numpy.float32, "i": numpy.int16, "b": numpy.bool_}[a.dtype.kind])


def narrow_fortran(a):
    return numpy.asfortranarray(narrow(a))


def plain(a):
    return a.copy()


VARIANTS = {"plain": plain, "fortran": fortran, "strided": strided, "reversed": reversed_, "reversed-last": reversed_last,
            "offset": offset, "rolled": rolled, "read-only": read_only, "borrowed": borrowed, "unaligned": unaligned,
            "narrow": narrow, "narrower": narrower, "narrow-fortran": narrow_fortran}
ALONE = ("fortran", "reversed", "read-only", "narrow")
TORCH = ("plain", "fortran", "strided", "reversed", "rolled", "narrow")
TENSOR = ("t-plain", "t-transposed", "t-expanded", "t-strided", "t-grad", "t-narrow", "t-narrower")
JAX = ("plain", "fortran", "reversed", "narrow")
CONST = ("plain", "fortran", "reversed", "read-only", "narrow", "strided")


def tensor(name, a):
    import torch

    t = torch.from_numpy(a.copy())
    if name == "t-transposed" and a.ndim > 1:
        axes = tuple(reversed(range(a.ndim)))
        return t.permute(axes).contiguous().permute(axes)
    if name == "t-strided":
        return torch.from_numpy(strided(a))
    if name == "t-narrower":
        return torch.from_numpy(a.astype({"f": numpy.float32, "i": numpy.int16, "b": numpy.bool_}[a.dtype.kind]))
    if name == "t-narrow":
        return torch.from_numpy(narrow(a))
    if name == "t-grad" and a.dtype.kind == "f":
        return t.requires_grad_()
    return t


def rtol_of(variant):
    return 1e-4 if "narrow" in variant else runners.RTOL


def settings(n, variants):
    """Which variant each input has: all the same, and each alone."""
    for v in variants:
        yield (v,) * n
    if n > 1:
        for v in ALONE:
            if v in variants:
                for k in range(n):
                    yield tuple(v if j == k else "plain" for j in range(n))


def intact(before, after):
    return all(x.tobytes() == y.tobytes() and x.dtype == y.dtype for x, y in zip(before, after))


def shared(ins):
    """Contents that do not vary along the first axis, so that a zero stride can represent them."""
    return [numpy.broadcast_to(a[:1], a.shape).copy() if a.ndim and a.shape[0] else a for a in ins]


def value_within(term, ins, limit):
    """The model's value where nothing computed on the way leaves the narrow types."""
    saved = lang.LIMIT_I, lang.LIMIT_F
    lang.LIMIT_I, lang.LIMIT_F = limit, 1e15
    try:
        return runners.model_value(term, ins)
    except lang.Unspecified:
        return None
    finally:
        lang.LIMIT_I, lang.LIMIT_F = saved


def run_storage(ctx, term, spec, dims, be, variants, mode):
    types = runners.input_types(spec)
    kind = lang.rank_kind(lang.typeof(term, {}, types))[1]
    dims = dict(dims)
    base = runners.inputs_for(spec, dims)
    calls = execm.caller(term, be) if mode == "var" else None

    def check(ins, want, label, rtol):
        ctx.transitions += 1
        hosts = [numpy.asarray(a.detach() if hasattr(a, "detach") else a) for a in ins]
        before = [h.copy() for h in hosts]
        try:
            got = calls(*ins) if calls else execm.eval_const(term, be, ins)
            what = execm.mismatch(got, want, kind, rtol)
        except Refused:
            ctx.refused += 1
            return None
        except Exception as e:
            if be == "jax" and "narrow" in str(label) and isinstance(e, TypeError) and "types" in str(e):
                ctx.refused += 1  # JAX wants an accumulator to keep its exact width
                return None
            what = f"raised {type(e).__name__}: {str(e)[:300]}"
        if what is None and not intact(before, hosts):
            what = "an input was changed"
        return f"[{be}, {mode}] inputs stored as {label}: {what}; dims {dims}" if what else None

    try:
        want = runners.model_value(term, base)
    except lang.Unspecified:
        ctx.outside += 1
        return None
    ctx.states += 1
    wide = want
    fitting = {}
    for s in settings(len(base), variants):
        want = wide
        limit = 2**15 if any("narrower" in v for v in s) else 2**31 if any("narrow" in v for v in s) else None
        if limit is not None:
            if limit not in fitting:
                fitting[limit] = value_within(term, base, limit)
            want = fitting[limit]
            if want is None:
                ctx.outside += 1
                continue
        if s[0].startswith("t-"):
            ins = [tensor(v, a) for v, a in zip(s, base)]
        else:
            ins = [VARIANTS[v](a) for v, a in zip(s, base)]
        what = check(ins, want, s, max(map(rtol_of, s), default=runners.RTOL))
        if what:
            return what
    if be == "numpy" or "t-expanded" in variants:
        flat = shared(base)
        try:
            want = runners.model_value(term, flat)
        except lang.Unspecified:
            want = None
        if want is not None:
            ctx.states += 1
            ins = [zero_stride(a) for a in flat]
            if be == "torch":
                import torch

                ins = [torch.from_numpy(a[:1].copy()).expand(a.shape) if a.ndim and a.shape[0] else torch.from_numpy(a) for a in flat]
            what = check(ins, want, "zero strides", runners.RTOL)
            if what:
                return what
    ctx.traces += 1
    return None


def equal_dims(spec, dims, n):
    return tuple((d, n) for d, _ in dims)


def cases(tier):
    thorough = tier == "thorough"
    seen = {}
    for name, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier):
        k = seen[name] = seen.get(name, 0) + 1
        if not spec:
            continue
        if not thorough and k % STRIDE.get(name, 1):
            continue
        k //= STRIDE.get(name, 1)
        for dims in va if thorough else (va[k % len(va)],):
            yield ("storage", (term, spec, dims, "numpy", tuple(VARIANTS), "var"), name)
        dims = va[(k + 1) % len(va)]
        if thorough or k % 4 == 0:
            yield ("storage", (term, spec, dims, "torch", TORCH, "var"), name + " (torch)")
            yield ("storage", (term, spec, dims, "torch", TENSOR, "var"), name + " (tensors)")
            yield ("storage", (term, spec, dims, "numpy", CONST, "const"), name + " (constants)")
        if thorough or k % 8 == 0:
            yield ("storage", (term, spec, dims, "numpy", tuple(VARIANTS), "var"), name)
        if name not in famfold.NOT_ON_JAX and (thorough or k % 40 == 0):
            yield ("storage", (term, spec, dims, "jax", JAX, "var"), name + " (jax)")
