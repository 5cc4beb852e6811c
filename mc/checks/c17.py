"""Library combinators: every combinator on every short vector over a set of values with ties, zeros and infinities.

The oracle is the textbook definition, in Python.  Every combinator is run on each vector alone, on all vectors of one
length at once (as the rows of a matrix, inside a comprehension), with explicit and inferred counts, and over computed
elements; selections, concatenations and or-empty also over vectors, matrices and records.
"""
import itertools
import math

import numpy

from mc import execm, real  # noqa: F401
from ein import array, fold, function, where, wrap
from ein.frontend import std
from ein.frontend.std import Monoid, concat

INF = float("inf")
VALUES = (0.0, 1.5, -2.0, INF, -INF)
NONE = object()


def total(xs):
    r = 0.0
    for x in xs:
        r += x
    return r if r == r else NONE


def argmin(xs):
    best = 0
    for k, x in enumerate(xs):
        if x < xs[best]:
            best = k
    return best


LAWS = {
    "sum": (total, std.fold_sum, std.reduce_sum, "f"),
    "min": (lambda xs: min(xs, default=INF), std.fold_min, std.reduce_min, "f"),
    "max": (lambda xs: max(xs, default=-INF), std.fold_max, std.reduce_max, "f"),
    "argmin": (argmin, std.fold_argmin, std.reduce_argmin, "i"),
}


def both(name):
    law, f, r, kind = LAWS[name]
    return (("fold", f), ("reduce", r))


def elements(body):
    """How the elements of a row are computed: (host, Ein) functions of the row and a position."""
    return {
        "plain": (lambda x, k: x[k], lambda x, k: x[k]),
        "negated": (lambda x, k: -x[k], lambda x, k: -x[k]),
        "doubled": (lambda x, k: x[k] * 2.0, lambda x, k: x[k] * 2.0),
        "shifted": (lambda x, k: x[k] + 1.0, lambda x, k: x[k] + 1.0),
        "reversed": (lambda x, k: x[len(x) - 1 - k], lambda x, k: x[x.size(0) - 1 - k]),
        "squared": (lambda x, k: abs(x[k]) if math.isinf(x[k]) else x[k] * x[k], lambda x, k: x[k] * x[k]),
        "chosen": (lambda x, k: x[k] if x[k] > 0.0 else 7.0, lambda x, k: where(x[k] > 0.0, x[k], 7.0)),
    }[body]


BODIES = ("plain", "negated", "doubled", "shifted", "reversed", "squared", "chosen")
INFERRED = ("plain", "negated", "doubled", "shifted", "squared", "chosen")


def fails(got, want, kind):
    if want is NONE:
        return False
    if kind == "i":
        return got != want
    if got == want:
        return False
    return not abs(got - want) <= 1e-9 * max(1.0, abs(want))


def host(x):
    return execm.to_host(x)


def patterns(n, values):
    return [list(p) for p in itertools.product(values, repeat=n)]


def run_vectors(ctx, name, variant, body, counted, n):
    """One vector at a time."""
    law, _, _, kind = LAWS[name]
    comb = dict(both(name))[variant]
    hb, eb = elements(body)
    if counted == "inferred":
        f = function(lambda x: comb(lambda k: eb(x, k)))
    elif counted == "size":
        f = function(lambda x: comb(lambda k: eb(x, k), x.size(0)))
    else:
        f = function(lambda x: comb(lambda k: eb(x, k), n))
    for p in patterns(n, VALUES if ctx.tier == "thorough" or n < 4 else VALUES[:4]):
        want = law([hb(p, k) for k in range(n)])
        got = host(f(numpy.array(p, dtype=float)))
        ctx.states += 1
        ctx.transitions += 1
        if got.shape != () or execm.KIND.get(got.dtype.kind) != kind:
            return f"{variant}_{name} of {p} ({body}) is an array of shape {got.shape}, {got.dtype}"
        if fails(got.tolist(), want, kind):
            return f"{variant}_{name} of {p} ({body}, {counted}) is {got.tolist()!r} instead of {want!r}"
    ctx.traces += 1
    return None


def run_rows(ctx, name, variant, body, be, n):
    """All vectors of one length as the rows of a matrix, and as its columns."""
    law, _, _, kind = LAWS[name]
    comb = dict(both(name))[variant]
    hb, eb = elements(body)
    ps = patterns(n, VALUES if n < 5 else VALUES[:3])
    m = numpy.array(ps, dtype=float).reshape(len(ps), n)
    wants = [law([hb(p, k) for k in range(n)]) for p in ps]
    for columns in (False, True):
        if columns:
            fun = lambda m: array(lambda i: comb(lambda k: eb(array(lambda t: m[t, i], size=m.size(0)), k), m.size(0)), size=m.size(1))  # noqa: E731
            arg = numpy.ascontiguousarray(m.T)
        else:
            fun = lambda m: array(lambda i: comb(lambda k: eb(m[i], k), m.size(1)), size=m.size(0))  # noqa: E731
            arg = m
        ctx.transitions += 1
        ctx.states += len(ps)
        got = call(fun, be, arg)
        if got is None:
            ctx.refused += 1
            continue
        if got.shape != (len(ps),) or execm.KIND.get(got.dtype.kind) != kind:
            return f"[{be}] {variant}_{name} over rows of length {n} has shape {got.shape}, {got.dtype}"
        for p, g, w in zip(ps, got.tolist(), wants):
            if fails(g, w, kind):
                return f"[{be}] {variant}_{name} of {p} ({body}, {'columns' if columns else 'rows'}) is {g!r} instead of {w!r}"
    ctx.traces += 1
    return None


def call(fun, be, *args):
    if be == "naive":
        from ein import interpret_with_naive, with_varargs
        from ein.phi.type_system import type_from_ndarray

        vs, expr = with_varargs([type_from_ndarray(a) for a in args], fun)
        return host(interpret_with_naive(expr, dict(zip(vs, args))))
    try:
        return host(getattr(function(fun), be)(*args))
    except Exception as e:
        if be == "jax" and execm.is_jax_refusal(e):
            return None
        raise


def run_counts(ctx, name, variant, count, n):
    """A count other than the length: positions beyond the end read the last element."""
    law, _, _, kind = LAWS[name]
    comb = dict(both(name))[variant]
    f = function(lambda x, c: comb(lambda k: x[k], c))
    g = function(lambda x: comb(lambda k: x[k], count))
    for p in patterns(n, VALUES[:4]):
        want = law([p[min(k, n - 1)] for k in range(max(count, 0))])
        x = numpy.array(p, dtype=float)
        for label, got in (("argument", f(x, numpy.array(count))), ("literal", g(x))):
            ctx.transitions += 1
            ctx.states += 1
            got = host(got)
            if fails(got.tolist(), want, kind):
                return f"{variant}_{name} of {count} elements of {p} ({label}) is {got.tolist()!r} instead of {want!r}"
    ctx.traces += 1
    return None


def run_minmax(ctx, which, n, lits, kind):
    """std.min / std.max of several scalars, some of them Python literals."""
    values = VALUES if kind == "f" else (0, 3, -2, 2**40)
    f = getattr(std, which)
    ref = min if which == "min" else max
    for p in itertools.product(values, repeat=n):
        args = [x if k in lits else wrap(x) for k, x in enumerate(p)]
        got = f(*args)
        value = wrap(got).eval().tolist()
        ctx.transitions += 1
        ctx.states += 1
        if value != ref(p) or type(value) is not type(ref(p)):
            return f"std.{which}{p} with literals at {lits} is {value!r}"
    # elementwise
    rows = list(itertools.product(values, repeat=n))
    m = numpy.array(rows).reshape(len(rows), n)
    got = host(function(lambda m: array(lambda i: f(*[m[i, k] for k in range(n)])))(m))
    if got.tolist() != [ref(r) for r in rows]:
        return f"elementwise std.{which} of {n} arguments differs"
    ctx.transitions += 1
    ctx.traces += 1
    return None


def run_concat(ctx, sizes, rank, kind):
    """concat of 1..4 vectors, matrices, or vectors of records."""
    rng = iter(range(1, 1000))
    arrays = []
    for n in sizes:
        shape = (n,) + (2,) * (rank - 1)
        a = numpy.array([next(rng) for _ in range(int(numpy.prod(shape)))], dtype=float).reshape(shape)
        arrays.append(a if kind != "i" else a.astype(int))
    want = numpy.concatenate(arrays)
    if kind == "record":
        vecs = [array(lambda i, a=wrap(a): {"x": a[i], "y": a[i] * 2.0 if rank == 1 else a[i]}, size=a.shape[0]) for a in arrays]
        c = concat(*vecs)
        outs = [array(lambda i: c[i]["x"], size=len(want)), array(lambda i: c[i]["y"], size=len(want))]
        wants = [want, want * 2.0 if rank == 1 else want]
    else:
        c = concat(*map(wrap, arrays))
        outs, wants = [c, array(lambda i: c[i] if rank == 1 else c[i, 1], size=len(want)), c[:]], [want, want if rank == 1 else want[:, 1], want]
    for o, w in zip(outs, wants):
        got = host(o.eval())
        ctx.transitions += 1
        ctx.states += 1
        if got.shape != w.shape or not numpy.array_equal(got, w):
            return f"concatenation of {sizes} (rank {rank}, {kind}) is {got.tolist()} instead of {w.tolist()}"
    # as a function of arguments
    if kind != "record":
        got = host(function(lambda *xs: concat(*xs))(*arrays))
        if got.shape != want.shape or not numpy.array_equal(got, want):
            return f"concatenation of arguments {sizes} (rank {rank}, {kind}) is {got.tolist()} instead of {want.tolist()}"
    ctx.traces += 1
    return None


def run_or_empty(ctx, n, item, kind, rank):
    shape = (n,) + (2,) * (rank - 1)
    a = (numpy.arange(1, 1 + int(numpy.prod(shape))) * 3).reshape(shape)
    a = {"f": a.astype(float), "i": a.astype(int), "b": a % 2 == 0}[kind]
    fb = {"f": -1.5, "i": -7, "b": True}[kind]
    if rank == 1:
        fun = lambda x, k: x.or_empty(k, fb)  # noqa: E731
        want = a[min(max(item, 0), n - 1)] if n else fb
    else:
        fun = lambda x, k: x.or_empty(k, array(lambda t: wrap(fb), size=2))  # noqa: E731
        want = a[min(max(item, 0), n - 1)] if n else numpy.full((2,) * (rank - 1), fb)
    outs = [host(function(fun)(a, numpy.array(item))), host(wrap(fun(wrap(a), item)).eval())]
    # at every position of a comprehension
    got = host(function(lambda x: array(lambda i: fun(x, i + item), size=3))(a))
    for k in range(3):
        w = a[min(max(item + k, 0), n - 1)] if n else want
        if not numpy.array_equal(got[k], w):
            return f"or_empty({item} + {k}) of {a.tolist()} in a comprehension is {got[k].tolist()} instead of {numpy.asarray(w).tolist()}"
    for o in outs:
        ctx.transitions += 1
        ctx.states += 1
        if o.shape != numpy.shape(want) or o.tolist() != numpy.asarray(want).tolist():
            return f"or_empty({item}) of {a.tolist()} is {o.tolist()} instead of {numpy.asarray(want).tolist()}"
    ctx.traces += 1
    return None


def run_where(ctx, form, cond):
    """Selections between vectors, matrices, records, and records of vectors."""
    a, b = numpy.arange(6.0).reshape(2, 3), -numpy.arange(6.0).reshape(2, 3) - 1.0
    pick = a if cond else b
    for how in ("literal", "constant", "argument"):
        def run(fun):
            ctx.transitions += 1
            ctx.states += 1
            if how == "argument":
                return host(function(lambda c, x, y: fun(c, x, y))(numpy.array(cond), a, b))
            return host(wrap(fun(cond if how == "literal" else wrap(cond), wrap(a), wrap(b))).eval())

        tests = {
            "matrix": [(lambda c, x, y: where(c, x, y), pick)],
            "vector": [(lambda c, x, y: where(c, x[0], y[1]), a[0] if cond else b[1])],
            "scalar": [(lambda c, x, y: where(c, x[0, 1], y[1, 2]), a[0, 1] if cond else b[1, 2])],
            "tuple": [(lambda c, x, y, k=k: where(c, (x, y[0], x[0, 1]), (y, x[1], y[1, 1]))[k],
                       ((a, b[0], a[0, 1]) if cond else (b, a[1], b[1, 1]))[k]) for k in range(3)],
            "dict": [(lambda c, x, y, k=k: where(c, {"p": x, "q": {"r": y[0, 0]}}, {"p": y, "q": {"r": x[1, 1]}})[k]
                      if k == "p" else where(c, {"p": x, "q": {"r": y[0, 0]}}, {"p": y, "q": {"r": x[1, 1]}})["q"]["r"],
                      (pick if k == "p" else (b[0, 0] if cond else a[1, 1]))) for k in ("p", "q")],
            "rows": [(lambda c, x, y: array(lambda i: where(c, x[i], y[1 - i]), size=2), a if cond else b[::-1])],
            "mapped": [(lambda c, x, y: array(lambda i, j: where(x[i, j] > 2.0, (x[i, j], y[i, j]), (y[i, j], x[i, j]))[0]),
                        numpy.where(a > 2.0, a, b))],
            "empty": [(lambda c, x, y: where(c, array(lambda i: x[0, i], size=0), array(lambda i: y[0, i], size=0)), numpy.zeros(0))],
        }[form]
        for fun, want in tests:
            got = run(fun)
            if got.shape != numpy.shape(want) or not numpy.array_equal(got, want):
                return f"where({cond}) on {form} ({how}) is {got.tolist()} instead of {numpy.asarray(want).tolist()}"
    ctx.traces += 1
    return None


def _leaves(n, x, first):
    """n values of ranks 0, 1, 2 in turn out of a matrix; first and second alternatives differ in every one."""
    out = []
    for k in range(n):
        p = (k + (0 if first else 1)) % 2
        out.append((x[p, k % 3] if k % 3 == 0 else x[p] if k % 3 == 1 else x))
    return out


def _shaped(kind, vals):
    from mc import real

    if kind == "nested":
        return (vals[0], {"z": tuple(vals[1:]), "a": vals[-1]})
    if kind == "deep":
        return {"w": {"v": {"u": vals[0]}, "t": vals[1:]}} if len(vals) > 1 else {"w": {"v": {"u": vals[0]}}}
    return real.record(kind, vals)


def _flat(x):
    if isinstance(x, dict):
        x = list(x.values())
    elif hasattr(x, "__dataclass_fields__"):
        x = [getattr(x, n) for n in x.__dataclass_fields__]
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in _flat(y)]
    return [x]


def run_wherefields(ctx, kind, n, cond, inside):
    """Selecting a record selects every field of it, under its own name."""
    a, b = numpy.arange(6.0).reshape(2, 3), -numpy.arange(6.0).reshape(2, 3) - 1.0

    def chosen(c, x, y):
        if inside:
            rows = array(lambda i: where(c, _shaped(kind, [x[i, k % 3] for k in range(n)]), _shaped(kind, [y[i, 2 - k % 3] for k in range(n)])),
                         size=2)
            return rows[1]
        return where(c, _shaped(kind, _leaves(n, x, True)), _shaped(kind, _leaves(n, y, False)))

    if inside:
        alternatives = [_flat(_shaped(kind, [a[1, k % 3] for k in range(n)])), _flat(_shaped(kind, [b[1, 2 - k % 3] for k in range(n)]))]
    else:
        alternatives = [_flat(_shaped(kind, _leaves(n, a, True))), _flat(_shaped(kind, _leaves(n, b, False)))]
    want = alternatives[0 if cond else 1]
    for k in range(len(want)):
        ctx.states += 1
        ctx.transitions += 1
        got = host(function(lambda c, x, y: _flat(chosen(c, x, y))[k])(numpy.array(cond), a, b))
        if got.shape != numpy.shape(want[k]) or not numpy.array_equal(got, want[k]):
            return f"field {k} of where({cond}) on {n} values in {kind} is {got.tolist()} instead of {numpy.asarray(want[k]).tolist()}"
    ctx.traces += 1
    return None


# monoids: identity, operation, element of (value, position); with their Python counterparts
def _compose(a, b):
    return (a[0] * b[0], a[1] * b[0] + b[1])


MONOIDS = {
    "product": (lambda: wrap(1.0), lambda a, b: a * b, lambda x, k: x, 1.0, lambda a, b: a * b, lambda x, k: x),
    "affine": (lambda: (wrap(1.0), wrap(0.0)), _compose, lambda x, k: (x, x + 1.0), (1.0, 0.0), _compose, lambda x, k: (x, x + 1.0)),
    "first": (lambda: (wrap(False), wrap(0.0)), lambda a, b: where(a[0], a, b), lambda x, k: (x > 0.0, where(x > 0.0, x, 0.0)), (False, 0.0),
              lambda a, b: a if a[0] else b, lambda x, k: (x > 0.0, max(x, 0.0))),
    "last": (lambda: {"on": wrap(False), "x": wrap(0.0)}, lambda a, b: where(b["on"], b, a), lambda x, k: {"on": x > 0.0, "x": where(x > 0.0, x, 0.0)},
             {"on": False, "x": 0.0}, lambda a, b: b if b["on"] else a, lambda x, k: {"on": x > 0.0, "x": max(x, 0.0)}),
    "argmax": (lambda: (wrap(-INF), wrap(-1)), lambda a, b: where(b[0] > a[0], b, a), lambda x, k: (x, k), (-INF, -1),
               lambda a, b: b if b[0] > a[0] else a, lambda x, k: (x, k)),
    "count": (lambda: wrap(0), lambda a, b: a + b, lambda x, k: where(x > 0.0, 1, 0), 0, lambda a, b: a + b, lambda x, k: 1 if x > 0.0 else 0),
    "span": (lambda: (wrap(INF), wrap(-INF)), lambda a, b: (a[0].min(b[0]), a[1].max(b[1])), lambda x, k: (x, x), (INF, -INF),
             lambda a, b: (min(a[0], b[0]), max(a[1], b[1])), lambda x, k: (x, x)),
}


def parts(r):
    return list(r.values()) if isinstance(r, dict) else list(r) if isinstance(r, tuple) else [r]


def run_monoid(ctx, name, variant, n):
    ident, op, elem, hident, hop, helem = MONOIDS[name]
    mon = Monoid(ident(), op)
    width = len(parts(hident))

    def result(x, j, n):
        el = lambda k: elem(x[k], k)  # noqa: E731
        return parts(mon.fold(el, n) if variant == "fold" else mon.reduce(el, n))[j]

    fs = [function(lambda x, j=j: result(x, j, x.size(0))) for j in range(width)]
    values = (0.5, -2.0, 3.0)
    ps = patterns(n, values)
    rows = [host(function(lambda m, j=j: array(lambda i: result(m[i], j, m.size(1)), size=m.size(0)))(numpy.array(ps, dtype=float).reshape(len(ps), n)))
            for j in range(width)]
    for r, p in enumerate(ps):
        acc = hident
        for k, x in enumerate(p):
            acc = hop(acc, helem(x, k))
        for j, want in enumerate(parts(acc)):
            ctx.transitions += 1
            ctx.states += 1
            got = host(fs[j](numpy.array(p, dtype=float))).tolist()
            for g, label in ((got, "alone"), (rows[j][r].tolist(), "in a row")):
                if type(g) is not type(want) or (g != want and not abs(g - want) <= 1e-9 * max(1.0, abs(want))):
                    return f"{variant} with {name} of {p}, part {j} ({label}), is {g!r} instead of {want!r}"
    ctx.traces += 1
    return None


def run_slices(ctx, shape, item):
    """Empty slices among the indices: a[:], a[:, j], a[i, :], ..."""
    a = numpy.arange(int(numpy.prod(shape)), dtype=float).reshape(shape)
    idx = tuple(slice(None) if x is None else x for x in item)
    want = a[idx]
    for label, got in (("constant", host(wrap(a)[idx].eval())), ("argument", host(function(lambda x: x[idx])(a)))):
        ctx.transitions += 1
        ctx.states += 1
        if got.shape != want.shape or not numpy.array_equal(got, want):
            return f"{label} of shape {shape} at {item} is {got.tolist()} instead of {want.tolist()}"
    if len(idx) > 1 or idx[0] != slice(None):
        k = next((p for p, x in enumerate(idx) if x != slice(None)), None)
        if k is not None:
            got = host(function(lambda x: array(lambda t: x[tuple(t if p == k else y for p, y in enumerate(idx))], size=shape[k]))(a))
            want = numpy.stack([a[tuple(t if p == k else y for p, y in enumerate(idx))] for t in range(shape[k])])
            if got.shape != want.shape or not numpy.array_equal(got, want):
                return f"shape {shape} at {item}, index {k} bound by a comprehension, is {got.tolist()} instead of {want.tolist()}"
    ctx.traces += 1
    return None


def cases(tier):
    thorough = tier == "thorough"
    for name in LAWS:
        for variant in ("fold", "reduce"):
            for n in range(6 if thorough else 5):
                for body in BODIES:
                    counts = ("size", "literal") + (("inferred",) if body in INFERRED else ())
                    for counted in counts:
                        if not thorough and n == 4 and (body not in ("plain", "reversed") or counted != "size"):
                            continue
                        yield ("vectors", (name, variant, body, counted, n), "vectors")
            for n in range(6):
                for body in BODIES:
                    for be in ("numpy", "torch", "naive", "jax"):
                        if be == "naive" and (n > 3 or n == 0) and not (thorough and n):
                            continue
                        if be == "jax" and not thorough and (body not in ("plain", "chosen") or n > 3):
                            continue
                        yield ("rows", (name, variant, body, be, n), "rows")
            for n in (1, 2, 3):
                for c in (0, 1, 2, 4, 5) + ((-1,) if variant == "fold" else ()):
                    yield ("counts", (name, variant, c, n), "counts")
    for which in ("min", "max"):
        for kind in "fi":
            for n in (1, 2, 3) + ((4,) if thorough else ()):
                for lits in itertools.chain.from_iterable(itertools.combinations(range(n), r) for r in range(n + 1)):
                    yield ("minmax", (which, n, lits, kind), "min and max")
    for k in range(1, 5):
        for sizes in itertools.product((0, 1, 2, 3), repeat=k):
            for rank, kind in ((1, "f"), (1, "i"), (2, "f"), (3, "f"), (1, "record"), (2, "record")):
                if k == 4 and not thorough and (rank > 1 or kind != "f"):
                    continue
                yield ("concat", (sizes, rank, kind), "concatenations")
    for n in range(4):
        for item in (-2, -1, 0, 1, 2, 5):
            for kind in "fib":
                for rank in (1, 2):
                    yield ("or_empty", (n, item, kind, rank), "or-empty")
    for form in ("matrix", "vector", "scalar", "tuple", "dict", "rows", "mapped", "empty"):
        for cond in (True, False):
            yield ("where", (form, cond), "selections")
    for kind in ("tuple", "list", "dict", "odd", "P", "Q", "nested", "deep"):
        for n in {"P": (2,), "Q": (3,), "nested": (2, 3, 4)}.get(kind, (1, 2, 3, 4, 5)):
            for cond, inside in itertools.product((True, False), repeat=2):
                yield ("wherefields", (kind, n, cond, inside), "selections of records")
    for name in MONOIDS:
        for variant in ("fold", "reduce"):
            for n in range(6 if thorough else 5):
                yield ("monoid", (name, variant, n), "monoids")
    for rank in (1, 2, 3, 4):
        for shape in itertools.product((1, 2, 3), repeat=rank):
            if rank == 4 and not thorough and len(set(shape)) < 3:
                continue
            for k in range(1, rank + 1):
                for item in itertools.product((None, 0, -1 % max(shape)), repeat=k):
                    if all(x is None or x < shape[p] for p, x in enumerate(item)):
                        yield ("slices", (shape, item), "slices")
