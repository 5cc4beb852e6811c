"""Scalar operators: every operator form on every tuple of operands of a boundary grid gives Python's value.

Forms: Ein operands on both sides, Python literals on either side, reflected forms, alone (scalar programs), elementwise in
comprehensions (operands read from arrays, in both index orders), and composed with one another.  The oracle is Python's
own operator on the same values; a result is not specified where Python raises, where it leaves the 64-bit integers or
the finite floats, or where it depends on how an inexact operand was rounded.
"""
import itertools
import math
import operator

import numpy

from mc import execm, real  # noqa: F401
from ein import array, function, where, wrap

INF = float("inf")
FLOATS = (0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, -3.0, 1.5, -2.5, 7.25, 0.1, -0.3, 1e-8, -1e-8, 100.0, -350.0, 1e3, -1e3,
          1e10, -1e10, 1e150, -1e150, 1e-150, INF, -INF)
FLOATS_Q = (0.0, 1.0, -1.0, 0.5, -2.0, 3.0, -2.5, 0.1, 1e-8, -350.0, 1e3, 1e10, -1e150, 1e-150, INF, -INF)
INTS = (0, 1, -1, 2, -2, 3, -3, 5, -5, 7, -7, 8, 64, -64, 2**31 - 1, -(2**31), 2**31, 2**53, 2**53 + 1, -(2**53) - 1, 2**62,
        -(2**62), 2**63 - 1, -(2**63) + 1)
INTS_Q = (0, 1, -1, 2, -2, 3, -3, 7, -7, 64, -(2**31), 2**53, 2**53 + 1, -(2**53) - 1, 2**62)
BOOLS = (False, True)
EXPONENTS = (True, False, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 15, 16, 17, 31, 33, 63, -1, -2, -3, -4, -5, -7, -8, -16)

NONE = object()  # not specified


class Approx(float):
    """A float obtained by an operation that rounds."""


def norm(r, inexact):
    if isinstance(r, bool):
        return r
    if isinstance(r, int):
        return r if -(2**63) <= r < 2**63 else NONE
    if isinstance(r, float):
        if r != r or (inexact and not math.isinf(r) and abs(r) > 1e300):
            return NONE
        return Approx(r) if inexact else r
    return NONE


def lift(f, rounds=False, compares=False):
    def g(*args):
        if any(a is NONE for a in args):
            return NONE
        inexact = any(isinstance(a, Approx) for a in args)
        if compares and inexact:
            x, y = args[-2:]
            if x == y or abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                return NONE
        plain = [float(a) if isinstance(a, Approx) else a for a in args]
        try:
            r = f(*plain)
        except (ZeroDivisionError, OverflowError, ValueError):
            return NONE
        kind = isinstance(r, float) and (rounds or inexact)
        return norm(r, kind)

    return g


def power(a, b):
    r = a**b
    if isinstance(r, complex):
        raise ValueError
    return r


def times(a, b):
    r = a * b
    if isinstance(r, float) and math.isinf(r) and not (math.isinf(a) or math.isinf(b)):
        raise OverflowError
    return r


def plus(a, b):
    r = a + b
    if isinstance(r, float) and math.isinf(r) and not (math.isinf(a) or math.isinf(b)):
        raise OverflowError
    return r


def pick(c, t, f):
    return t if c else f


# name -> (reference, Ein with Ein or literal operands, operand kinds)
BINARY = {
    "add": (lift(plus, True), operator.add, ("ii", "ff")),
    "sub": (lift(lambda a, b: plus(a, -b), True), operator.sub, ("ii", "ff")),
    "mul": (lift(times, True), operator.mul, ("ii", "ff")),
    "div": (lift(operator.truediv, True), operator.truediv, ("ff",)),
    "mod": (lift(operator.mod), operator.mod, ("ii",)),
    "pow": (lift(power, True), operator.pow, ("ff",)),
    "lt": (lift(operator.lt, compares=True), operator.lt, ("ii", "ff")),
    "le": (lift(operator.le, compares=True), operator.le, ("ii", "ff")),
    "gt": (lift(operator.gt, compares=True), operator.gt, ("ii", "ff")),
    "ge": (lift(operator.ge, compares=True), operator.ge, ("ii", "ff")),
    "eq": (lift(operator.eq, compares=True), operator.eq, ("ii", "ff")),
    "ne": (lift(operator.ne, compares=True), operator.ne, ("ii", "ff")),
    "and": (lift(operator.and_), operator.and_, ("bb",)),
    "or": (lift(operator.or_), operator.or_, ("bb",)),
    "min": (lift(min), lambda a, b: wrap(a).min(b), ("ii", "ff")),
    "max": (lift(max), lambda a, b: wrap(a).max(b), ("ii", "ff")),
}
UNARY = {
    "neg": (lift(operator.neg), operator.neg, "if"),
    "abs": (lift(abs), abs, "if"),
    "abs-method": (lift(abs), lambda a: a.abs(), "if"),
    "not": (lift(operator.not_), operator.invert, "b"),
    "float": (lift(float, True), lambda a: a.float(), "i"),
    "exp": (lift(math.exp, True), lambda a: a.exp(), "f"),
    "sin": (lift(math.sin, True), lambda a: a.sin(), "f"),
    "cos": (lift(math.cos, True), lambda a: a.cos(), "f"),
    "tanh": (lift(math.tanh, True), lambda a: a.tanh(), "f"),
}
# forms that have no reflected version: TypeError or Python's value
NO_REFLECTED = {"mod", "pow", "and", "or"}
GRID = {"quick": {"f": FLOATS_Q, "i": INTS_Q, "b": BOOLS}, "thorough": {"f": FLOATS, "i": INTS, "b": BOOLS}}
DTYPE = {"f": numpy.float64, "i": numpy.int64, "b": numpy.bool_}
RESULT = {"add": "=", "sub": "=", "mul": "=", "div": "f", "mod": "i", "pow": "f", "min": "=", "max": "=", "and": "b", "or": "b",
          "neg": "=", "abs": "=", "abs-method": "=", "not": "b", "float": "f", "exp": "f", "sin": "f", "cos": "f", "tanh": "f"}


def result_kind(name, kinds):
    r = RESULT.get(name, "b")
    return kinds[0] if r == "=" else r


def same(got, want, kind):
    if want is NONE:
        return True
    if kind == "f":
        if got == want:
            return True
        if math.isinf(want) or math.isinf(got) or got != got:
            return False
        return abs(got - want) <= 1e-9 * max(abs(want), 1e-3)
    return type(got) is type(want) and got == want


def flat(x):
    return execm.to_host(x).reshape(-1).tolist()


def kind_of(x):
    return execm.KIND.get(execm.to_host(x).dtype.kind)


def compare(ctx, got, wants, kind, label, operands):
    ctx.transitions += 1
    ctx.states += len(wants)
    if kind_of(got) != kind:
        return f"{label}: scalar kind {execm.to_host(got).dtype} instead of {kind}"
    vals = flat(got)
    if len(vals) != len(wants):
        return f"{label}: {len(vals)} values instead of {len(wants)}"
    for g, w, o in zip(vals, wants, operands):
        if not same(g, w, kind):
            return f"{label}{o} is {g!r} instead of {w!r}"
    return None


BACKENDS = ("numpy", "torch", "jax", "naive")


def call(f, be, arrays):
    return execm.to_host(getattr(f, be)(*arrays))


def columns(kinds, grid):
    rows = list(itertools.product(*[grid[k] for k in kinds]))
    return rows, [numpy.array([r[j] for r in rows], dtype=DTYPE[k]) for j, k in enumerate(kinds)]


def naive_eval(fun, arrays):
    from ein import interpret_with_naive, with_varargs
    from ein.phi.type_system import type_from_ndarray

    vs, expr = with_varargs([type_from_ndarray(a) for a in arrays], fun)
    return interpret_with_naive(expr, dict(zip(vs, arrays)))


def evaluate(fun, be, arrays):
    if be == "naive":
        return naive_eval(fun, arrays)
    return call(function(fun), be, arrays)


def run_elementwise(ctx, name, kinds, be):
    """array(lambda i: op(a[i], b[i])) over all tuples of operands."""
    ref, op, _ = BINARY.get(name) or UNARY[name]
    grid = GRID[ctx.tier]
    rows, arrays = columns(kinds, grid)
    wants = [ref(*r) for r in rows]
    n = len(kinds)
    if n == 1:
        fun = lambda a: array(lambda i: op(a[i]))  # noqa: E731
    else:
        fun = lambda a, b: array(lambda i: op(a[i], b[i]))  # noqa: E731
    got = evaluate(fun, be, arrays)
    what = compare(ctx, got, wants, result_kind(name, kinds), f"[{be}] {name}", rows)
    if what:
        return what
    if n == 2:
        # an outer product, the operands in both index orders
        xs, ys = (numpy.array(grid[k], dtype=DTYPE[k]) for k in kinds)
        for flip in (False, True):
            if flip:
                fun = lambda a, b: array(lambda j, i: op(a[i], b[j]), size=(b.size(0), a.size(0)))  # noqa: E731
            else:
                fun = lambda a, b: array(lambda i, j: op(a[i], b[j]), size=(a.size(0), b.size(0)))  # noqa: E731
            got = evaluate(fun, be, [xs, ys])
            if flip:
                got = numpy.transpose(execm.to_host(got))
            what = compare(ctx, numpy.ascontiguousarray(got), wants, result_kind(name, kinds), f"[{be}, outer] {name}", rows)
            if what:
                return what
    ctx.traces += 1
    return None


def run_scalar(ctx, name, kinds, operands, be):
    """A scalar program of constants; also with the operands as rank-0 arguments."""
    ref, op, _ = BINARY.get(name) or UNARY[name]
    want = ref(*operands)
    rk = result_kind(name, kinds)
    what = compare(ctx, op(*[wrap(x) for x in operands]).eval(backend=be), [want], rk, f"[{be}] {name}", [operands])
    if what or be == "jax":
        return what
    args = [numpy.array(x, dtype=DTYPE[k]) for x, k in zip(operands, kinds)]
    fun = (lambda a: op(a)) if len(kinds) == 1 else (lambda a, b: op(a, b))
    what = compare(ctx, evaluate(fun, be, args), [want], rk, f"[{be}, arguments] {name}", [operands])
    ctx.traces += 1
    return what


def run_literal(ctx, name, kinds, side, lit, be):
    """A Python literal on one side, all values of the grid on the other."""
    ref, op, _ = BINARY[name]
    other = kinds[1 - side]
    values = GRID[ctx.tier][other]
    operands = [(lit, x) if side == 0 else (x, lit) for x in values]
    wants = [ref(*o) for o in operands]
    a = numpy.array(values, dtype=DTYPE[other])
    if side == 0:
        fun = lambda a: array(lambda i: op(lit, a[i]))  # noqa: E731
    else:
        fun = lambda a: array(lambda i: op(a[i], lit))  # noqa: E731
    try:
        got = evaluate(fun, be, [a])
    except TypeError:
        if side == 0 and name in NO_REFLECTED:
            ctx.count("no reflected form")
            return None
        raise
    ctx.traces += 1
    return compare(ctx, got, wants, result_kind(name, kinds), f"[{be}, literal {lit!r} at {side}] {name}", operands)


def run_intpow(ctx, kind, exponent, be):
    """Integer literal exponents."""
    values = GRID["thorough"][kind]
    a = numpy.array(values, dtype=DTYPE[kind])
    try:
        got = evaluate(lambda a: array(lambda i: a[i] ** exponent, size=a.size(0)), be, [a])
    except TypeError:
        if kind == "b" or (kind == "i" and exponent < 0):
            ctx.count("powers rejected")
            return None
        raise
    if kind == "b":
        return f"bool ** {exponent} gave {got!r}"
    ref = lift(power, True)
    operands = [(x, exponent) for x in values]
    ctx.traces += 1
    return compare(ctx, got, [ref(*o) for o in operands], kind if not (kind == "i" and exponent < 0) else "f", f"[{be}] pow", operands)


COMPOSED = ("add", "sub", "mul", "div", "mod", "pow", "lt", "le", "eq", "ne", "gt", "ge", "and", "or", "min", "max")
SMALL = {"f": (0.0, -1.0, 0.5, 2.0, -3.0, 100.0, 1e-8), "i": (0, 1, -1, 2, -3, 7, 2**31), "b": BOOLS}


def run_composed(ctx, outer, okinds, inner, ikinds, side, be):
    """outer(inner(x, y), z) or outer(z, inner(x, y)), over all triples of a small grid."""
    oref, oop, _ = BINARY.get(outer) or UNARY[outer]
    iref, iop, _ = BINARY.get(inner) or UNARY[inner]
    zkinds = okinds[1 - side] if len(okinds) == 2 else ""
    rows, arrays = columns(tuple(ikinds) + tuple(zkinds), SMALL)
    n = len(ikinds)

    def both(iop, oop, vals):
        if iop is iref and inner == "tanh" and 0.0 < abs(vals[0]) < 1e-3:
            return NONE  # accurate up to the rounding of 1.0, which the outer operator may magnify
        x = iop(*vals[:n])
        if not zkinds:
            return oop(x)
        return oop(x, vals[n]) if side == 0 else oop(vals[n], x)

    wants = [both(iref, oref, r) for r in rows]
    m = len(arrays)
    body = lambda *vals: both(iop, oop, vals)  # noqa: E731
    fun = {1: lambda a: array(lambda i: body(a[i])),
           2: lambda a, b: array(lambda i: body(a[i], b[i])),
           3: lambda a, b, c: array(lambda i: body(a[i], b[i], c[i]))}[m]
    ctx.traces += 1
    return compare(ctx, evaluate(fun, be, arrays), wants, result_kind(outer, okinds),
                   f"[{be}] {outer} of {inner} at {side}, ", rows)


def run_where(ctx, kind, be):
    ref = lift(pick)
    rows, arrays = columns(("b", kind, kind), SMALL if ctx.tier == "quick" else GRID["quick"])
    got = evaluate(lambda c, a, b: array(lambda i: where(c[i], a[i], b[i])), be, arrays)
    what = compare(ctx, got, [ref(*r) for r in rows], kind, f"[{be}] where", rows)
    if what:
        return what
    for c in BOOLS:
        rows, arrays = columns((kind, kind), SMALL)
        got = evaluate(lambda a, b: array(lambda i: where(c, a[i], b[i])), be, arrays)
        what = what or compare(ctx, got, [ref(c, *r) for r in rows], kind, f"[{be}] where({c}, ...)", rows)
        for t in SMALL[kind]:
            rows, arrays = columns(("b", kind), SMALL)
            got = evaluate(lambda c, b: array(lambda i: where(c[i], t, b[i])), be, arrays)
            what = what or compare(ctx, got, [ref(r[0], t, r[1]) for r in rows], kind, f"[{be}] where literal {t}", rows)
            got = evaluate(lambda c, b: array(lambda i: where(c[i], b[i], t)), be, arrays)
            what = what or compare(ctx, got, [ref(r[0], r[1], t) for r in rows], kind, f"[{be}] where literal {t}", rows)
    ctx.traces += 1
    return what


# operators Ein does not have: an exception, or Python's value
UNSUPPORTED = {
    "//": lambda a, b: a // b, "divmod": divmod, "<<": lambda a, b: a << b, ">>": lambda a, b: a >> b, "^": lambda a, b: a ^ b,
    "@": lambda a, b: a @ b, "pow3": lambda a, b: pow(a, b, 5), "chained": lambda a, b: a < b < a, "and": lambda a, b: a and b,
    "or": lambda a, b: a or b, "not": lambda a, b: not a, "+a": lambda a, b: +a, "int": lambda a, b: int(a),
    "float": lambda a, b: float(a), "bool": lambda a, b: bool(a), "round": lambda a, b: round(a), "in": lambda a, b: b in (a,),
    "if": lambda a, b: a if b else b, "index": lambda a, b: [0, 1, 2, 3, 4][a], "range": lambda a, b: range(a),
    "iter": lambda a, b: list(a), "len": lambda a, b: len(a), "hash": lambda a, b: hash(a) * 0 + hash(b) * 0, "complex": lambda a, b: complex(a),
    "min-builtin": lambda a, b: min(a, b), "max-builtin": lambda a, b: max(a, b),
    "sorted": lambda a, b: sorted([a, b]), "a[b]": lambda a, b: a[b], "any": lambda a, b: any([a, b]),
}


def run_unsupported(ctx, name, kind):
    f = UNSUPPORTED[name]
    vals = {"i": (2, 3), "f": (2.0, 3.0), "b": (True, False)}[kind]
    for x, y in itertools.product(vals, repeat=2):
        for left, right in ((wrap(x), wrap(y)), (wrap(x), y), (x, wrap(y))):
            ctx.transitions += 1
            ctx.states += 1
            try:
                want = f(x, y)
            except Exception:
                want = NONE
            try:
                got = f(left, right)
            except (TypeError, NotImplementedError):
                continue
            if isinstance(got, (bool, int, float)) and want is not NONE and got == want:
                continue
            if not hasattr(got, "eval"):
                if got == want:
                    continue
                return f"{name} on ({x!r}, {y!r}) returned {got!r}"
            value = got.eval().tolist()
            if want is NONE or value != want:
                return f"{name} on ({x!r}, {y!r}) returned {value!r} instead of {want!r}"
    ctx.traces += 1
    return None


def cases(tier):
    thorough = tier == "thorough"
    grid = GRID[tier]
    for be in BACKENDS:
        for name, (_, _, sigs) in BINARY.items():
            for kinds in sigs:
                yield ("elementwise", (name, kinds, be), "elementwise")
        for name, (_, _, kinds) in UNARY.items():
            for k in kinds:
                yield ("elementwise", (name, k, be), "elementwise")
        for k in "fib":
            yield ("where", (k, be), "selection")
        for k in "fib":
            for e in EXPONENTS:
                if be == "jax" and not thorough and abs(e) > 5:
                    continue
                yield ("intpow", (k, e, be), "integer powers")
    for name, (_, _, sigs) in BINARY.items():
        for kinds in sigs:
            for be in BACKENDS:
                sub = grid if thorough else SMALL
                if be == "jax":
                    sub = SMALL if thorough else {k: v[:3] for k, v in SMALL.items()}
                for operands in itertools.product(*[sub[k] for k in kinds]):
                    yield ("scalar", (name, kinds, operands, be), "scalars")
                for side in (0, 1):
                    if name == "pow" and side == 1 and not thorough:
                        pass
                    lits = (grid if be in ("numpy", "torch") else SMALL if be == "naive" or thorough else {k: v[:4] for k, v in SMALL.items()})[kinds[side]]
                    for x in lits:
                        yield ("literal", (name, kinds, side, x, be), "literals")
    for name, (_, _, kinds) in UNARY.items():
        for k in kinds:
            for be in BACKENDS:
                for x in (SMALL if be == "jax" and not thorough else grid)[k]:
                    yield ("scalar", (name, k, (x,), be), "scalars")
    every = [(n, s) for n, (_, _, sigs) in BINARY.items() for s in sigs] + [(n, k) for n, (_, _, ks) in UNARY.items() for k in ks]
    for be in ("numpy", "torch", "jax", "naive") if thorough else ("numpy", "torch"):
        for outer, okinds in every:
            for inner, ikinds in every:
                for side in range(len(okinds)):
                    if result_kind(inner, ikinds) == okinds[side]:
                        yield ("composed", (outer, okinds, inner, ikinds, side, be), "compositions")
    for name in UNSUPPORTED:
        for k in "ifb":
            yield ("unsupported", (name, k), "unsupported")
