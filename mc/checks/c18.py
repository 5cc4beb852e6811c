"""External functions: every placement of a call, with every choice of arguments; the result is the pointwise application.

The functions are not symmetric in their arguments and written, as external functions are, for whole arrays: leading axes
are batch axes that broadcast, the axes of vector arguments come last.
"""
import itertools

import numpy

from mc import execm, lang, real, runners
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mul, mx, op, proj, rec, red, size, sub, tofloat, v, where
from ein import array, ext, function, matrix_type, scalar_type, vector_type, wrap

F, I, B = scalar_type(float), scalar_type(int), scalar_type(bool)


def ref(f):
    return lang._total(f)


def vref(f):
    """f on nested lists; unspecified elements make the result unspecified."""

    def nested(x):
        return [nested(y) for y in x.items] if isinstance(x, lang.RVec) else x

    def g(*args):
        if any(y is lang.BOT for a in args for y in lang.leaves(a)):
            return lang.BOT
        if any(isinstance(a, lang.RVec) and 0 in lang.shape_of(a) for a in args):
            return lang.BOT
        return f(*map(nested, args))

    return g


def to_vec(f):
    def g(*args):
        (w,) = [a for a in args if isinstance(a, lang.RVec)]
        if any(y is lang.BOT for a in args for y in lang.leaves(a)):
            return lang.botify(w)
        xs = [a.items if isinstance(a, lang.RVec) else a for a in args]
        return lang.RVec(f(*xs), lang.BOT)

    return g


def at(u, k):
    """The first or last element; of nothing, zero: external functions are applied to empty arrays too."""
    return u[..., k] if u.shape[-1] else u.sum(-1)


FUNS = {
    # name: (on arrays, signature, reference, result)
    "one": (lambda a: a * 2.0 + 1.0, F, ref(lambda a: a * 2.0 + 1.0), "f"),
    "two": (lambda a, b: a * 10.0 - b, F, ref(lambda a, b: a * 10.0 - b), "f"),
    "three": (lambda a, b, c: a * 100.0 + b * 10.0 - c, F, ref(lambda a, b, c: a * 100.0 + b * 10.0 - c), "f"),
    "four": (lambda a, b, c, d: a * 1000.0 + b * 100.0 - c * 10.0 + d, F,
             ref(lambda a, b, c, d: a * 1000.0 + b * 100.0 - c * 10.0 + d), "f"),
    "int2": (lambda a, b: a * 10 - b, ([I, I], I), ref(lambda a, b: a * 10 - b), "i"),
    "less": (lambda a, b: a < b + 1.0, ([F, F], B), ref(lambda a, b: a < b + 1.0), "b"),
    # of vectors; the last axes are the vectors' own
    "dot": (lambda u, w: (u * w).sum(-1), F, vref(lambda u, w: float(sum(x * y for x, y in zip(u, w)))), "f"),
    "ends": (lambda u: at(u, 0) * 3.0 - at(u, -1), F, vref(lambda u: u[0] * 3.0 - u[-1]), "f"),
    "mixed": (lambda a, u: a * 10.0 + at(u, 0) * 3.0 - at(u, -1), ([F, vector_type(float)], F),
              vref(lambda a, u: a * 10.0 + u[0] * 3.0 - u[-1]), "f"),
    "mixed2": (lambda u, a: a * 10.0 + at(u, 0) * 3.0 - at(u, -1), F, vref(lambda u, a: a * 10.0 + u[0] * 3.0 - u[-1]), "f"),
    "vecs": (lambda u, a, w: at(u, 0) * 7.0 - at(u, -1) + a * 10.0 + at(w, 0) * 3.0 - at(w, -1) * 2.0, F,
             vref(lambda u, a, w: u[0] * 7.0 - u[-1] + a * 10.0 + w[0] * 3.0 - w[-1] * 2.0), "f"),
    "corner": (lambda m: at(at(m, -1), 0) * 5.0 - at(at(m, 0), -1), F, vref(lambda m: m[0][-1] * 5.0 - m[-1][0]), "f"),
    "corner2": (lambda m, a: at(at(m, -1), 0) * 5.0 - at(at(m, 0), -1) + a, F, vref(lambda m, a: m[0][-1] * 5.0 - m[-1][0] + a), "f"),
    # to vectors
    "scale": (lambda a, u: a[..., None] * u, ([F, vector_type(float)], vector_type(float)), to_vec(lambda a, u: [a * x for x in u]), ("v", "f")),
    "shift": (lambda u, a: u * 2.0 - a[..., None], vector_type(float), to_vec(lambda u, a: [x * 2.0 - a for x in u]), ("v", "f")),
    "neg": (lambda u: -u, vector_type(float), to_vec(lambda u: [-x for x in u]), ("v", "f")),
}
for _n, (_f, _s, _r, _t) in FUNS.items():
    _f.__name__ = _n
    real.EXTG[_n] = (_f, _s)
    lang.EXTG[_n] = (_r, _t)


def X(name, *args):
    return ("extg", name, *args)


SPEC = (("f", "n"), ("f", "s"), ("f", "ns"), ("f", "nsk"), ("f", "k"), ("i", "n"))
A, C, M, T, K, Q = (inp(j) for j in range(6))
N, S, KK = size(A), size(C), size(K)
i, j = v("i"), v("j")


def scalars(i, j):
    yield get(A, i)
    yield get(C, j)
    yield get(M, i, j)
    yield lit(2.5)
    yield tofloat(i)
    yield get(A, get(Q, i))
    yield get(M, lit(1), j)
    yield add(get(A, i), get(C, j))
    yield get(T, i, j, lit(0))


def vectors(i, j):
    yield K
    yield get(M, i)
    yield get(T, i, j)
    yield arr("t", KK, get(T, i, j, v("t")))
    yield arr("t", KK, add(get(K, v("t")), get(C, j)))
    yield arr("t", N, get(M, v("t"), j))
    yield arr("t", KK, get(T, i, lit(0), sub(sub(KK, lit(1)), v("t"))))
    yield arr("t", lit(2), mul(get(A, i), get(C, v("t"))))
    yield cat(K, arr("t", lit(1), get(C, j)))


def matrices(i, j):
    yield M
    yield get(T, i)
    yield arr("t", S, get(T, i, v("t")))
    yield arr("t u", [lit(2), KK], add(get(T, i, j, v("u")), get(A, v("t"))))
    yield arr("t", N, get(T, v("t"), j))


def calls(i, j, thorough):
    sc, ve, ma = list(scalars(i, j)), list(vectors(i, j)), list(matrices(i, j))
    for a in sc:
        yield X("one", a)
    for a, b in itertools.product(sc, repeat=2):
        yield X("two", a, b)
        yield X("less", a, b)
    for a, b, c in itertools.product(sc if thorough else sc[:5], repeat=3):
        yield X("three", a, b, c)
    for a, b in itertools.product((i, j, get(Q, i), add(i, j), lit(3)), repeat=2):
        yield X("int2", a, b)
    for u in ve:
        yield X("ends", u)
        for a in sc:
            yield X("mixed", a, u)
            yield X("mixed2", u, a)
    for u, w in itertools.product(ve, repeat=2):
        yield X("vecs", u, get(A, i), w)
        yield X("vecs", u, get(C, j), w)
    for u, w in itertools.product(ve[:1] + ve[2:5] + ve[6:7], repeat=2):
        yield X("dot", u, w)
    for m in ma:
        yield X("corner", m)
        for a in sc:
            yield X("corner2", m, a)
    for u in ve:
        yield get(X("neg", u), lit(1))
        for a in sc:
            yield get(X("scale", a, u), i)
            yield get(X("shift", u, a), lit(0))


VA = tuple((("n", n), ("s", s), ("k", k)) for n, s, k in ((2, 3, 4), (3, 2, 2), (1, 3, 2), (3, 1, 1), (2, 2, 2)))
VA0 = VA + ((("n", 0), ("s", 2), ("k", 3)), (("n", 3), ("s", 0), ("k", 2)))


def placed(thorough):
    """(term, family)"""
    for c in calls(i, j, thorough):
        yield arr("i j", [N, S], c), "comprehensions"
    for c in calls(i, j, False):
        yield arr("j i", [S, N], c), "comprehensions, swapped"
    some = [c for n, c in enumerate(calls(i, j, False)) if n % 5 == 0]
    for c in some:
        yield arr("i", N, arr("j", S, add(c, get(A, i)))), "nested"
        yield arr("i", N, fold(S, get(A, i), sub(v("acc"), lift(c, "j")), "j", "acc")), "folds"
        yield fold(N, lit(0.0), add(mul(v("acc"), lit(0.5)), fold(S, lit(1.0), add(v("acc2"), lift(c, "j")), "j", "acc2")), "i", "acc"), "folds"
        yield arr("j", S, fold(N, lit(0.0), X("two", lift(c, "j"), v("acc")), "i", "acc")), "folds"
        yield arr("i", N, red(lit(0.0), add(v("rx"), v("ry")), arr("j", S, lift(c, "j")))), "reductions"
        yield arr("i j", [N, S], X("two", lift(c, "j"), X("one", get(A, i)))), "composed"
        yield arr("i j", [N, S], let("x", lift(c, "j"), X("three", v("x"), get(C, j), v("x")))), "composed"
        yield arr("i j", [N, S], where(op("lt", i, j), lift(c, "j"), lit(-1.0))), "selected"
        yield cat(arr("i", N, let("j", lit(0), lift(c, "j"))), A), "concatenated"
        yield arr("i", N, get(arr("j", S, lift(c, "j")), get(Q, i))), "indexed"
        yield arr("i j h", [N, S, lit(2)], X("two", lift(c, "j"), add(get(A, v("h")), get(C, v("h"))))), "three indices"
        yield arr("h j i", [lit(2), S, N], X("three", get(A, v("h")), lift(c, "j"), get(C, v("h")))), "three indices"
        yield arr("i j", [N, S], proj(fold(lit(2), rec("tuple", get(A, i), lit(0.0)),
                                          rec("tuple", X("two", proj(v("acc"), 0), lift(c, "j")), X("one", proj(v("acc"), 1))), "k", "acc"), 0)), "records"
    # vector results kept whole
    for u in vectors(i, j):
        for a in list(scalars(i, j))[:5]:
            yield arr("i j", [N, S], X("scale", a, u)), "vector results"
            yield arr("j i", [S, N], X("shift", u, a)), "vector results"
        yield arr("i j", [N, S], X("neg", u)), "vector results"
        yield arr("i j", [N, S], X("neg", X("shift", u, get(C, j)))), "vector results"
        yield arr("i j t", [N, S, lit(2)], get(X("scale", get(A, i), u), v("t"))), "vector results"
        yield arr("i j", [N, S], size(X("neg", u))), "vector results"
    # calls that depend on nothing, or are not in a comprehension
    for c in (X("one", lit(1.5)), X("two", lit(1.5), get(A, lit(0))), X("ends", K), X("dot", K, K), X("corner", M), X("mixed", get(C, lit(0)), K),
              X("four", lit(1.0), get(A, lit(0)), get(C, lit(0)), get(K, lit(1)))):
        yield c, "alone"
        yield arr("i", N, c), "alone"
        yield arr("i", N, add(c, get(A, i))), "alone"
    yield X("neg", K), "alone"
    yield X("scale", get(A, lit(0)), X("neg", K)), "alone"


def lift(c, name):
    """Ints and truth values of a call as a float."""
    t = lang.EXTG[c[1]][1] if c[0] == "extg" else "f"
    return tofloat(c) if t == "i" else where(c, lit(1.0), lit(0.0)) if t == "b" else c


def cases(tier):
    thorough = tier == "thorough"
    seen = {}
    for term, name in placed(thorough):
        if lang.sizes_depend_on_indices(term):
            continue
        n = seen[name] = seen.get(name, 0) + 1
        try:
            lang.typeof(term, {}, runners.input_types(SPEC))
        except TypeError:
            continue
        va = VA0 if thorough else (VA0[n % 5], VA0[5 + n % 2])
        yield ("prog", (term, SPEC, va, ("numpy",), "var"), name)
        if thorough or n % 3 == 0:
            yield ("prog", (term, SPEC, VA if thorough else (VA[(n + 1) % 5],), ("torch", "naive"), "var"), name)
        if thorough or n % 25 == 0:
            yield ("prog", (term, SPEC, VA[:1], ("jax",), "var"), name)
    types = range(len(TYPES))
    for n in (1, 2):
        for declared in itertools.product(types, repeat=n):
            for given in itertools.chain.from_iterable(itertools.product(types, repeat=m) for m in (n - 1, n, n + 1) if m < 3):
                yield ("signature", (declared, given), "signatures")
    for be in ("numpy", "torch", "naive", "jax"):
        for where_ in PLACES:
            for which in range(4):
                yield ("raises", (be, where_, which), "exceptions")
    for be in ("numpy", "torch", "naive", "jax"):
        for callable_ in CALLABLES:
            yield ("callables", (be, callable_), "callables")


def run_prog(ctx, term, spec, valuations, backends, mode):
    # only pointwise functions of non-empty vectors are specified
    return runners.run_prog(ctx, term, spec, valuations, backends, mode)


TYPES = (F, I, B, vector_type(float), vector_type(int), matrix_type(float))
GIVEN = (lambda: wrap(1.5), lambda: wrap(3), lambda: wrap(True), lambda: wrap(numpy.ones(2)), lambda: wrap(numpy.ones(2, int)),
         lambda: wrap(numpy.ones((2, 3))))


def run_signature(ctx, declared, given):
    """TypeError exactly when the types of the arguments differ from the declared ones, before the function is called."""
    called = []

    def fun(*args):
        called.append(args)
        return numpy.array(1.25)

    ctx.transitions += 1
    ctx.states += 1
    made = ext(fun, ([TYPES[t] for t in declared], F))
    args = [GIVEN[t]() for t in given]
    try:
        e = made(*args)
    except TypeError:
        if declared == given:
            return f"declared {declared}: rejected"
        return None if not called else "the function was called"
    if called:
        return "the function was called while the program was built"
    if declared != given:
        return f"declared {declared}: accepted {given}"
    if e.eval().tolist() != 1.25 or len(called) != 1:
        return f"evaluated to {e.eval()}"
    got = called[0]
    if [type(x).__name__ for x in got] != ["ndarray"] * len(got) or [x.shape for x in got] != [numpy.shape(GIVEN[t]().eval()) for t in given]:
        return f"called with {got}"
    ctx.traces += 1
    return None


class Mine(Exception):
    pass


class Base(BaseException):
    pass


PLACES = {
    "alone": lambda f, a: f(a[0]),
    "mapped": lambda f, a: array(lambda i: f(a[i])),
    "nested": lambda f, a: array(lambda i, j: f(a[i] * a[j])),
    "fold": lambda f, a: real.fold(0.0, lambda k, acc: acc * 0.5 + f(a[k]), count=3),
    "init": lambda f, a: real.fold(f(a[0]), lambda k, acc: acc * 0.5 + a[k], count=3),
    "reduce": lambda f, a: a.reduce(0.0, lambda x, y: x + f(y)),
    "second": lambda f, a: array(lambda i: a[i] + real.fold(0.0, lambda k, acc: acc * 0.5 + f(acc), count=2)),
    "vector": lambda f, a: f(a[0]) + array(lambda i: f(a[i]) * 2.0)[1],
}


def run_raises(ctx, be, where_, which):
    """What the function raises reaches the caller, unchanged; the next evaluation is not affected."""
    error = (Mine("x"), ValueError("y"), KeyError("k"), Base("z"))[which]
    fail = [True]

    def fun(x):
        if fail[0]:
            raise error
        return x + 1.0

    def good(x):
        return x + 1.0

    a = numpy.array([1.5, -2.0, 3.0])
    made = ext(fun, ([F], F))
    expr = PLACES[where_](made, wrap(a))
    ctx.states += 1
    for attempt in range(2):
        ctx.transitions += 1
        try:
            got = expr.eval(backend=be)
            return f"[{be}] {where_}: returned {got} although the function raises"
        except BaseException as e:
            if e is not error:
                if type(e) is type(error) and e.args == error.args:
                    continue
                return f"[{be}] {where_}: raised {e!r} instead of {error!r}"
    fail[0] = False
    got = execm.to_host(expr.eval(backend=be))
    want = execm.to_host(PLACES[where_](ext(good, F), wrap(a)).eval(backend="numpy"))
    if got.shape != want.shape or not numpy.allclose(got, want):
        return f"[{be}] {where_}: after the exception, {got} instead of {want}"
    ctx.traces += 1
    return None


class Callable_:
    def __init__(self, k):
        self.k = k

    def __call__(self, x):
        return x * self.k

    def method(self, x):
        return x * self.k + 1.0


CALLABLES = ("lambda", "object", "method", "partial", "same-body", "ufunc", "builtin")


def run_callables(ctx, be, name):
    """Two functions that look alike are told apart; the same one is applied everywhere."""
    import functools

    def scaled(k, x):
        return x * k

    if name == "lambda":
        f, g, fr, gr = (lambda x: x * 2.0), (lambda x: x * 3.0), (lambda x: x * 2.0), (lambda x: x * 3.0)
    elif name == "object":
        f, g, fr, gr = Callable_(2.0), Callable_(3.0), (lambda x: x * 2.0), (lambda x: x * 3.0)
    elif name == "method":
        f, g, fr, gr = Callable_(2.0).method, Callable_(3.0).method, (lambda x: x * 2.0 + 1.0), (lambda x: x * 3.0 + 1.0)
    elif name == "partial":
        f, g, fr, gr = functools.partial(scaled, 2.0), functools.partial(scaled, 3.0), (lambda x: x * 2.0), (lambda x: x * 3.0)
    elif name == "same-body":
        made = [(lambda x, k=k: x * k) for k in (2.0, 3.0)]
        f, g, fr, gr = made[0], made[1], (lambda x: x * 2.0), (lambda x: x * 3.0)
    elif name == "ufunc":
        if be in ("torch", "jax"):
            return None
        f, g, fr, gr = numpy.negative, numpy.absolute, (lambda x: -x), abs
    else:
        f, g, fr, gr = abs, Callable_(1.0), abs, (lambda x: x)
    a = numpy.array([1.5, -2.0, 3.0])
    ef, eg = ext(f, F), ext(g, ([F], F))
    x = wrap(a)
    e = array(lambda i: ef(x[i]) * 10.0 + eg(x[i]) + ef(eg(x[i])) * 100.0)
    got = execm.to_host(e.eval(backend=be)).tolist()
    want = [fr(y) * 10.0 + gr(y) + fr(gr(y)) * 100.0 for y in a.tolist()]
    ctx.transitions += 1
    ctx.states += 1
    ctx.traces += 1
    if not numpy.allclose(got, want):
        return f"[{be}] {name}: {got} instead of {want}"
    return None
