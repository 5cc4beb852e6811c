"""Decorated functions: after every history of calls up to a depth, every call gives what it gives alone.

The reference for a call is plain Python on nested lists, without any state.
"""
import itertools

import numpy

from mc import execm, lang, real


def cases(tier):
    thorough = tier == "thorough"
    cheap = [n for n, c in enumerate(CALLS) if "jax" not in c[1]]
    jaxy = [n for n, c in enumerate(CALLS) if "jax" in c[1]]
    for seq in itertools.product(range(len(CALLS)), repeat=2):
        yield ("history", (seq,), "histories of 2")
    for seq in itertools.product(cheap, repeat=3):
        # quick: at least two of the calls are calls of the same function
        if not thorough and len({CALLS[n][0] for n in seq}) == 3:
            continue
        yield ("history", (seq,), "histories of 3")
    if thorough:
        for a, b in itertools.product(cheap, repeat=2):
            for j in jaxy:
                yield ("history", ((a, j, b),), "histories of 3")
                yield ("history", ((j, a, j),), "histories of 3")
        core = [n for n in cheap if CALLS[n][0] in ("poly", "sub", "typed", "twin")]
        for seq in itertools.product(core, repeat=4):
            yield ("history", (seq,), "histories of 4")
    for arity in (1, 2, 3, 4):
        for order in range(4):
            for bes in (("numpy",), ("torch",), ("numpy", "torch"), ("torch", "numpy")):
                yield ("all_types", (arity, order, bes), "every combination of types")
    for arity in (1, 2):
        yield ("all_types", (arity, 0, ("jax", "numpy")), "every combination of types")
    for n in range(len(SIGNATURES)):
        yield ("signature", (n,), "signatures")
    for arity in range(1, 7 if thorough else 6):
        for perm in itertools.permutations(range(arity)):
            yield ("argument_order", (arity, perm), "argument order")
    for n in range(2, 5):
        for be in ("numpy", "torch", "jax"):
            yield ("many", (n, be), "many functions")


SAMPLES = {"f0": 1.5, "f1": [2.5, -1.0], "f2": [[0.5, 3.0], [1.0, 2.0]], "i0": 3, "i1": [4, 1], "i2": [[5, 0], [1, 1]],
           "b0": True, "b1": [False, True]}


def described(*args):
    """A program that is different for every combination of the types of its arguments, in order."""
    from ein import where, wrap

    out, code = wrap(0.0), 0
    for n, a in enumerate(args):
        r, kind = rank(a)
        code = 10 * code + {float: 1, int: 4, bool: 7}[kind] + r
        x = a
        for k in range(r):
            x = x[0]
        x = x if kind is float else x.float() if kind is int else where(x, 1.0, 0.0)
        out = out + float(n + 1) * x
    return out * 0.125 + float(code)


def described_ref(*args):
    out, code = 0.0, 0
    for n, a in enumerate(args):
        x, r = a, 0
        while isinstance(x, list):
            x, r = x[0], r + 1
        code = 10 * code + {float: 1, int: 4, bool: 7}[type(x)] + r
        out += (n + 1) * float(x)
    return out * 0.125 + code


def run_all_types(ctx, arity, order, backends):
    """One function called with every combination of argument types, one after the other, and once more."""
    from ein import function

    names = ["a", "b", "c", "d"][:arity]
    f = function(eval("lambda " + ",".join(names) + ": described(" + ",".join(names) + ")", {"described": described}))
    types = list(SAMPLES) if arity < 4 else ["f1", "i1", "f0", "b0"]
    combos = list(itertools.product(types, repeat=arity))
    if order & 1:
        combos.reverse()
    if order & 2:
        combos.sort(key=lambda c: c[::-1])
    for repeat in range(2):
        for combo in combos:
            args = [numpy.array(SAMPLES[t]) for t in combo]
            want = described_ref(*[SAMPLES[t] for t in combo])
            ctx.states += 1
            for be in backends:
                ctx.transitions += 1
                try:
                    got = execm.to_host(getattr(f, be)(*args))
                    what = None if got.shape == () and abs(float(got) - want) < 1e-9 else f"is {got.tolist()} instead of {want}"
                except Exception as e:
                    what = f"raised {type(e).__name__}: {str(e)[:200]}"
                if what:
                    return f"[{be}] a call on {combo} after calls on other types {what}"
    ctx.traces += 1
    return None


# ------------------------------------------------------------------------------------------------------ functions

Boom = type("Boom", (Exception,), {})


def rank(x):
    from ein import Vec
    from ein.phi.type_system import Vector

    t, r = x.expr.type, 0
    assert isinstance(x, Vec) == isinstance(t, Vector)
    while isinstance(t, Vector):
        t, r = t.elem, r + 1
    return r, t.kind


def poly(a):
    """A body that is a different program for every type."""
    r, kind = rank(a)
    if r == 0:
        return real.wrap(a)
    if r == 1:
        if kind is bool:
            return real.array(lambda i: ~a[i])
        n = a.size()
        return real.array(lambda i: a[n - i - 1] * 2, size=n) if kind is int else real.array(lambda i: a[n - i - 1], size=n)
    return real.array(lambda i, j: a[j, i])


def poly_ref(a):
    if not isinstance(a, list):
        return a
    if not a or not isinstance(a[0], list):
        if a and isinstance(a[0], bool):
            return [not x for x in a]
        return [x * 2 if isinstance(x, int) else x for x in reversed(a)]
    return [list(r) for r in zip(*a)]


def sub(a, b):
    """Not symmetric; the first argument is read beyond its end if the second is longer."""
    return real.array(lambda i: a[i] - b[i] * b[0], size=b.size())


def sub_ref(a, b):
    return [a[min(i, len(a) - 1)] - b[i] * b[0] for i in range(len(b))]


def scaled(a, s):
    return real.array(lambda i: a[i] * s + s, size=a.size())


def scaled_ref(a, s):
    return [x * s + s for x in a]


class Fuse:
    """Raises at run time when the flag given to the program's external function is negative."""

    def __call__(self, x):
        if float(numpy.asarray(x).min()) < 0:
            raise Boom
        return x


def fragile(a, b):
    from ein import ext, scalar_type

    f = ext(Fuse(), scalar_type(float))
    return real.array(lambda i: real.wrap(2.0) * b[i] + f(a[i]), size=a.size())


def fragile_ref(a, b):
    if any(x < 0 for x in a):
        raise Boom
    return [2.0 * b[i] + a[i] for i in range(len(a))]


def nothing():
    return real.array(lambda i: i + 1, size=3)


def nothing_ref():
    return [1, 2, 3]


def unbuildable(a):
    r, kind = rank(a)
    if kind is int:
        raise Boom
    if r == 2:
        return a[0] + 1.5  # a type error while constructing
    return real.array(lambda i: a[i] + 0.5)


def unbuildable_ref(a):
    if isinstance(a[0], int):
        raise Boom
    if isinstance(a[0], list):
        raise TypeError
    return [x + 0.5 for x in a]


def closure(k):
    c = real.wrap(numpy.array([1.0, 2.0, 3.0]) * k)
    return lambda a: real.array(lambda i: a[i] + c[i], size=3)


def make():
    from ein import function, ndarray_type
    from ein.frontend.functions import typed_function

    vec = ndarray_type(1, float)
    return {
        "poly": function(poly),
        "twin": function(poly),
        "sub": function(sub),
        "scaled": function(scaled),
        "fragile": function(fragile),
        "nothing": function(nothing),
        "unbuildable": function(unbuildable),
        "typed": typed_function(vec, vec)(sub),
        "close1": function(closure(1)),
        "close2": function(closure(2)),
    }


REFS = {"poly": poly_ref, "twin": poly_ref, "sub": sub_ref, "scaled": scaled_ref, "fragile": fragile_ref,
        "nothing": nothing_ref, "unbuildable": unbuildable_ref, "typed": sub_ref,
        "close1": lambda a: [a[min(i, len(a) - 1)] + [1., 2., 3.][i] for i in range(3)],
        "close2": lambda a: [a[min(i, len(a) - 1)] + [2., 4., 6.][i] for i in range(3)]}

F3, F2, G3 = [1.5, -2.0, 4.0], [3.0, -1.0], [0.5, 2.5, -3.0]
P3 = [1.0, 0.0, 2.0]
I3, J3 = [3, -1, 2], [1, 0, 0]
B3 = [True, False, False]
M23, M32 = [[1.0, 2.0, 3.0], [4.0, 5.0, 6.0]], [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0]]
N22 = [[1, 2], [3, 4]]
A = ("typed-mismatch",)

# (function, method, arguments, dtype of the arguments or None)
CALLS = [
    ("poly", "numpy", (F3,)),
    ("poly", "numpy", (F2,)),
    ("poly", "numpy", (I3,)),
    ("poly", "numpy", (B3,)),
    ("poly", "numpy", (M23,)),
    ("poly", "torch", (N22,)),
    ("poly", "torch", (F3,)),
    ("poly", "jax", (F3,)),
    ("poly", "jax", (F2,)),
    ("poly", "jax", (I3,)),
    ("poly", "call", (M32,)),
    ("poly", "call-torch", (F2,)),
    ("poly", "numpy32", (G3,)),
    ("twin", "numpy", (F3,)),
    ("twin", "numpy", (1.5,)),
    ("sub", "numpy", (F3, G3)),
    ("sub", "numpy", (G3, F3)),
    ("sub", "numpy", (F2, F3)),
    ("sub", "numpy", (I3, J3)),
    ("sub", "call-mixed", (F3, G3)),
    ("sub", "jax", (F3, G3)),
    ("sub", "jax", (G3, F3)),
    ("sub", "numpy", (F3,)),
    ("sub", "numpy", (F3, I3)),
    ("scaled", "numpy", (F3, 2.0)),
    ("scaled", "numpy", (I3, 2)),
    ("scaled", "numpy", (2.0, F3)),
    ("fragile", "numpy", (P3, F3)),
    ("fragile", "numpy", (F3, P3)),
    ("fragile", "torch", (F3, P3)),
    ("nothing", "numpy", ()),
    ("unbuildable", "numpy", (I3,)),
    ("unbuildable", "numpy", (F3,)),
    ("unbuildable", "numpy", (M23,)),
    ("typed", "numpy", (F3, G3)),
    ("typed", "numpy", (I3, J3)),
    ("typed", "numpy", (F3, I3)),
    ("typed", "torch", (F3,)),
    ("typed", "torch", (G3, F3)),
    ("typed", "jax", (M23, F3)),
    ("close1", "numpy", (F3,)),
    ("close2", "numpy", (F3,)),
]


def kind_of(x):
    while isinstance(x, list):
        x = x[0]
    return {bool: "b", int: "i", float: "f"}[type(x)]


def expected(c):
    """('value', v) or ('raises', exception type or None for any)."""
    name, method, args = c
    if name == "typed" and [kind_of(a) + str(numpy.asarray(a).ndim) for a in args] != ["f1", "f1"]:
        return "raises", TypeError
    import inspect

    if len(args) != len(inspect.signature(REFS[name]).parameters):
        return "raises", TypeError
    if name == "sub" and kind_of(args[0]) != kind_of(args[1]):
        return "raises", TypeError
    try:
        if name == "scaled" and not isinstance(args[0], list):
            return "raises", None
        return "value", REFS[name](*args)
    except Boom:
        return "raises", Boom
    except TypeError:
        return "raises", TypeError


def perform(fns, c):
    import torch

    name, method, args = c
    f = fns[name]
    arrays = [numpy.array(a) for a in args]
    if method == "numpy32":
        return f.numpy(*[a.astype(numpy.float32) for a in arrays])
    if method == "call":
        return f(*arrays)
    if method == "call-torch":
        return f(*[torch.from_numpy(a) for a in arrays])
    if method == "call-mixed":
        return f(arrays[0], *[torch.from_numpy(a) for a in arrays[1:]])
    return getattr(f, method)(*arrays)


def check_call(fns, c):
    import torch

    what, want = expected(c)
    try:
        got = perform(fns, c)
    except Exception as e:
        if what == "raises" and (want is None or type(e) is want):
            return None
        return f"{c[0]}.{c[1]}{c[2]} raised {type(e).__name__}: {str(e)[:200]}"
    if what == "raises":
        return f"{c[0]}.{c[1]}{c[2]} returned {got!r} instead of raising {want}"
    if c[1] in ("torch", "call-torch", "call-mixed") and not isinstance(got, torch.Tensor):
        return f"{c[0]}.{c[1]} returned a {type(got).__name__}"
    if c[1] in ("numpy", "call") and not isinstance(got, (numpy.ndarray, numpy.generic)):
        return f"{c[0]}.{c[1]} returned a {type(got).__name__}"
    a = numpy.asarray(want)
    m = execm.mismatch(got, lang.from_nested(want, a.ndim, a.shape), kind_of(want), 1e-6 if c[1] == "numpy32" else 1e-9)
    return None if m is None else f"{c[0]}.{c[1]}{c[2]}: {m}"


def run_history(ctx, seq):
    fns = make()
    for step, n in enumerate(seq):
        ctx.transitions += 1
        what = check_call(fns, CALLS[n])
        if what is not None:
            return f"step {step + 1} of {[CALLS[m] for m in seq]}: {what}"
        ctx.states += 1
    ctx.traces += 1
    return None


# ----------------------------------------------------------------------------------------------------- signatures

ATOMS = [(r, k) for r in (0, 1, 2) for k in ("b", "i", "f")]
SIGNATURES = [(a,) for a in ATOMS] + [(a, b) for a in ATOMS for b in ATOMS] + [()]
DT = {"b": bool, "i": numpy.int64, "f": numpy.float64}


def run_signature(ctx, n):
    """A function declared with each signature, called on every pair (and on more and fewer arguments), twice around a
    proper call: it raises TypeError exactly for the calls that do not fit."""
    from ein import function, ndarray_type
    from ein.frontend.functions import typed_function

    sig = SIGNATURES[n]
    seen = []

    def body(*args):
        seen.append(len(args))
        return args[-1] if args else real.wrap(7)

    py = {"b": bool, "i": int, "f": float}
    f = typed_function(*[ndarray_type(r, py[k]) for r, k in sig])(body)
    free = function(body)
    calls = [()] + [(a,) for a in ATOMS] + [(a, b) for a in ATOMS for b in ATOMS]
    if len(sig) == 2:
        calls += [sig + (sig[0],)]
    for rnd in range(2):
        for c in calls:
            args = [numpy.ones((2, 3)[:r], dtype=DT[k]) for r, k in c]
            for be in ("numpy", "torch"):
                ctx.transitions += 1
                try:
                    got = getattr(f, be)(*args)
                except TypeError:
                    if c == sig:
                        return f"signature {sig} rejects its own arguments on {be}"
                    continue
                if c != sig:
                    return f"signature {sig} accepts {c} on {be}: {got!r}"
                if tuple(got.shape) != (args[-1].shape if args else ()):
                    return f"signature {sig}: {got!r}"
        if sig:
            free.numpy(*[numpy.ones((2, 3)[:r], dtype=DT[k]) for r, k in sig])
        ctx.states += 1
    ctx.traces += 1
    return None


def run_argument_order(ctx, arity, perm):
    """sum(10^k * arg[k]) with the arguments combined, or reads hidden, in every order of mention."""
    from ein import function, with_varargs
    from ein.frontend.ndarray import _to_array

    import inspect

    names = [f"x{k}" for k in range(arity)]

    def raw(*args):
        total = None
        for k in perm:
            t = args[k] * float(10**k)
            total = t if total is None else t + total
        return total

    body = eval(f"lambda {', '.join(names)}: raw({', '.join(names)})", {"raw": raw})
    assert len(inspect.signature(body).parameters) == arity
    args = [numpy.array(float(k + 1)) for k in range(arity)]
    want = sum(float((k + 1) * 10**k) for k in range(arity))
    for be in ("numpy", "torch", "jax") if arity <= 3 else ("numpy", "torch"):
        f = function(body)
        for shift in (0.0, 1.0):
            got = getattr(f, be)(*[numpy.array(a + shift) for a in args])
            ctx.transitions += 1
            w = want + shift * sum(10**k for k in range(arity))
            if abs(float(got) - w) > 1e-6:
                return f"[{be}] arguments combined in the order {perm} give {float(got)} instead of {w}"
    vs, expr = with_varargs([execm.type_from_ndarray(a) for a in args], body)
    for be in ("naive", "numpy"):
        got = _to_array(expr).eval(env=dict(zip(vs, args)), backend=be)
        ctx.transitions += 1
        if abs(float(got) - want) > 1e-6:
            return f"[{be}] with_varargs: {float(got)} instead of {want}"
    ctx.states += 1
    ctx.traces += 1
    return None


def run_many(ctx, n, be):
    """n functions that differ only in a constant they close over, called in all orders."""
    from ein import function

    a = numpy.array([1.0, 2.0])
    for perm in itertools.permutations(range(n)):
        fs = [function(lambda x, k=k: real.array(lambda i: x[i] * float(k + 1))) for k in range(n)]
        for k in perm + perm:
            got = execm.to_host(getattr(fs[k], be)(a))
            ctx.transitions += 1
            if got.tolist() != [k + 1.0, 2 * k + 2.0]:
                return f"[{be}] function {k} called in the order {perm} gave {got.tolist()}"
        ctx.states += 1
    ctx.traces += 1
    return None
