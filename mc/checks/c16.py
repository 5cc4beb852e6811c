"""Gradients: for every program of the families, the gradients that PyTorch and JAX compute are the model's.

The model differentiates its own evaluation (forward mode, one variable per element of a floating-point input).  Points
at which an operation that is evaluated is not differentiable (ties, kinks, poles) are left out.
"""
import numpy

from mc import ad, execm, fam, famfold, lang, real, runners
from mc.checks.c05 import LARGE
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mn, mul, mx, op, proj, rec, red, size, sub, tofloat, v, where
from ein import function, wrap

import torch

RTOL = 1e-7


def inputs(spec, dims):
    out = []
    for n, a in enumerate(runners.inputs_for(spec, dims)):
        if a.dtype.kind == "f":
            # no two elements are equal, or sums of few others
            a = a * 0.5 + (numpy.arange(a.size).reshape(a.shape) * 0.0137 + 0.00731 * (n + 1)) * (1.0 + 0.01 * n)
        out.append(a)
    return out


# ------------------------------------------------------------------------------------------------ programs

i, j, k = v("i"), v("j"), v("k")
SPEC = (("f", "n"), ("f", "s"), ("f", "ns"), ("i", "n"), ("f", ""))
A, C, M, Q, Z = (inp(t) for t in range(5))
N, S = size(A), size(C)
VA = tuple((("n", n), ("s", s)) for n, s in ((3, 2), (2, 3), (1, 3), (3, 1), (2, 2), (4, 3)))


def smooth(x, y):
    """Functions of two scalars."""
    yield add(x, y)
    yield sub(x, mul(y, y))
    yield mul(x, y)
    yield op("div", x, add(mul(y, y), lit(1.0)))
    yield op("div", lit(1.0), add(lit(3.0), mul(x, y)))
    yield op("exp", mul(x, op("tanh", y)))
    yield mul(op("sin", x), op("cos", y))
    yield op("tanh", sub(x, y))
    yield op("pow", add(mul(x, x), lit(1.0)), y)
    yield op("pow", x, lit(2.0))
    yield op("pow", x, lit(3.0))
    yield op("pow", add(mul(x, x), lit(0.5)), lit(-0.5))
    yield op("abs", sub(x, y))
    yield op("neg", mul(x, y))
    yield mn(x, y)
    yield mx(mul(x, x), y)
    yield where(op("lt", x, y), mul(x, y), op("sin", y))
    yield where(op("and", op("gt", x, lit(0.0)), op("ne", x, y)), x, lit(0.25))
    yield let("z", mul(x, y), add(mul(v("z"), v("z")), op("exp", op("neg", mul(v("z"), v("z"))))))
    yield ("ext", "hyp", x, add(y, lit(7.0)))
    yield ("ext", "fma", x, y, x)


def operands():
    a, c, m = get(A, i), get(C, j), get(M, i, j)
    gathered = get(A, get(Q, i))
    shifted = get(C, add(j, lit(1)))
    yield a, c
    yield a, m
    yield m, m
    yield gathered, c
    yield m, get(M, sub(i, lit(1)), j)
    yield get(M, get(Q, i), j), shifted
    yield Z, m
    yield get(A, sub(sub(N, lit(1)), i)), get(A, i)
    yield tofloat(i), m
    yield get(M, i, lit(0)), get(M, lit(0), j)


def own(tier):
    for x, y in operands():
        for f in smooth(x, y):
            yield arr("i j", [N, S], f), "scalar functions"
            yield arr("j", S, fold(N, lit(0.0), add(v("acc"), f), "i", "acc")), "sums"
            yield arr("i", N, red(lit(0.0), add(v("rx"), v("ry")), arr("j", S, f))), "sums"
            yield arr("i", N, fold(S, Z, add(mul(v("acc"), lit(0.5)), f), "j", "acc")), "recurrences"
            yield arr("i", N, fold(S, lit(1.0), mul(op("cos", v("acc")), f), "j", "acc")), "recurrences"
            yield arr("j", S, red(lit(-1e30), mx(v("rx"), v("ry")), arr("i", N, f))), "maxima"
            yield arr("j", S, fold(N, lit(1e30), mn(v("acc"), f), "i", "acc")), "maxima"
            yield arr("i", N, red(lit(1.0), mul(v("rx"), v("ry")), arr("j", S, f))), "products"
            yield arr("i", N, get(arr("j", S, f), get(Q, i))), "indexed"
            yield cat(arr("i", N, let("j", lit(0), f)), arr("j", S, let("i", lit(1), f))), "concatenated"
            yield proj(fold(N, rec("tuple", Z, lit(1.0)), rec("tuple", proj(v("acc"), 1),
                            add(mul(proj(v("acc"), 0), lit(0.5)), let("j", lit(0), f))), "i", "acc"), 1), "records"
            yield proj(red(rec("tuple", lit(0.0), lit(0.0)), rec("tuple", add(proj(v("rx"), 0), proj(v("ry"), 0)), mx(proj(v("rx"), 1), proj(v("ry"), 1))),
                           arr("i", N, rec("tuple", let("j", lit(1), f), let("j", lit(0), f)))), 0), "records"
            yield arr("t", S, get(fold(N, C, arr("j", S, add(mul(get(v("acc"), sub(sub(S, lit(1)), j)), lit(0.5)), f)), "i", "acc"), v("t"))), "vector state"
            yield arr("i", N, ("extv", "vsum", arr("j", S, f))), "external"


def float_result(term, spec):
    try:
        ty = lang.typeof(term, {}, runners.input_types(spec))
        return lang.rank_kind(ty)[1] == "f"
    except TypeError:
        return False


def cases(tier):
    thorough = tier == "thorough"
    n = 0
    for term, name in own(tier):
        n += 1
        for t in range(len(VA) if thorough else 1):
            yield ("gradient", (term, SPEC, VA[(n + t) % len(VA)], "torch", "var"), name)
        if thorough or n % 7 == 0:
            yield ("gradient", (term, SPEC, VA[n % len(VA)], "torch", "const"), name)
        if thorough or n % 40 == 0:
            yield ("gradient", (term, SPEC, VA[n % 2], "jax", "var"), name)
        if thorough or n % 400 == 0:
            yield ("gradient", (term, SPEC, VA[n % 2], "jax", "const"), name)
    seen = {}
    for name, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier):
        if not float_result(term, spec) or not any(kind == "f" for kind, _ in spec):
            continue
        n = seen[name] = seen.get(name, 0) + 1
        va = [d for d in va if all(e for _, e in d)] if n % 5 else list(va)
        if not va:
            continue
        for t in range(len(va) if thorough else 1):
            yield ("gradient", (term, spec, va[(n + t) % len(va)], "torch", "var"), name)
        if thorough or n % 11 == 0:
            yield ("gradient", (term, spec, va[n % len(va)], "torch", "const"), name)
        if name in famfold.NOT_ON_JAX:
            continue
        if thorough or n % (150 if name in LARGE else 40) == 0:
            yield ("gradient", (term, spec, va[n % len(va)], "jax", "var"), name)


REVERSE_REFUSED = "Reverse-mode differentiation does not work"


def by_torch(term, arrays, mode):
    prog = real.program(term)
    ts = [torch.tensor(a, requires_grad=a.dtype.kind == "f") for a in arrays]
    if mode == "var":
        f = function(prog)
        # an earlier call of the same function, still being differentiated, is of no account
        earlier = f.torch(*[torch.tensor(a * 0.75 if a.dtype.kind == "f" else a, requires_grad=a.dtype.kind == "f") for a in arrays])
        out = f.torch(*ts)
        del earlier
    else:
        out = wrap(prog(*[wrap(t) for t in ts])).eval(backend="torch")
    w = torch.tensor(ad.weights(out.numel()), dtype=torch.float64).reshape(out.shape)
    loss = (out * w).sum()
    floats = [t for t in ts if t.requires_grad]
    if loss.requires_grad:
        gs = iter(torch.autograd.grad(loss, floats, allow_unused=True))
    else:
        gs = iter([None] * len(floats))
    found = []
    for t in ts:
        if not t.requires_grad:
            found.append(None)
            continue
        g = next(gs)
        found.append(numpy.zeros(tuple(t.shape)) if g is None else g.numpy())
    return out, found


def by_jax(term, arrays, mode):
    import jax
    import jax.numpy as jnp

    prog = real.program(term)
    floats = [n for n, a in enumerate(arrays) if a.dtype.kind == "f"]
    kept = []

    def loss(*xs):
        full = [jnp.asarray(a) for a in arrays]
        for n, x in zip(floats, xs):
            full[n] = x
        if mode == "var":
            out = function(prog).jax(*full)
        else:
            out = wrap(prog(*[wrap(t) for t in full])).eval(backend="jax")
        kept.append(out.shape)
        return (out * jnp.asarray(ad.weights(out.size), dtype=float).reshape(out.shape)).sum()

    args = [jnp.asarray(arrays[n]) for n in floats]
    which = tuple(range(len(floats)))
    try:
        try:
            gs = jax.grad(loss, argnums=which)(*args)
        except ValueError as e:
            if REVERSE_REFUSED not in str(e):
                raise
            gs = jax.jacfwd(loss, argnums=which)(*args)
    except Exception as e:
        if execm.is_jax_refusal(e):
            raise execm.Refused(str(e)[:200])
        raise
    found = [None] * len(arrays)
    for n, g in zip(floats, gs):
        found[n] = numpy.asarray(g)
    return kept[-1], found


def run_gradient(ctx, term, spec, dims, be, mode):
    arrays = inputs(spec, dict(dims))
    try:
        want = ad.gradient(term, arrays)
    except lang.Unspecified:
        want = None
    if want is None:
        ctx.outside += 1
        return None
    value, grads = want
    ctx.states += 1
    try:
        out, found = (by_torch if be == "torch" else by_jax)(term, arrays, mode)
    except execm.Refused:
        ctx.refused += 1
        return None
    ctx.transitions += 1
    if be == "torch":
        what = execm.mismatch(out, value, "f", RTOL)
        if what is not None:
            return f"[{be}, {mode}] {what}; dims {dims}"
    for n, (w, g) in enumerate(zip(grads, found)):
        if w is None:
            continue
        if w.shape != g.shape:
            return f"[{be}, {mode}] the gradient of input {n} has shape {g.shape}; dims {dims}"
        bad = ~(numpy.abs(w - g) <= RTOL * numpy.maximum(1.0, numpy.abs(w)) * max(1.0, float(numpy.abs(w).max(initial=0.0))))
        if bad.any():
            at = tuple(int(t[0]) for t in numpy.nonzero(bad)) if w.ndim else ()
            return f"[{be}, {mode}] the derivative by element {at} of input {n} is {g[at]!r} instead of {w[at]!r}; dims {dims}"
    ctx.traces += 1
    return None
