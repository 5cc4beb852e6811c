"""Side effects: after every step of every history, the inputs, wrapped arrays, environments and earlier results are
what they were, and every result is the model's."""
import itertools

import numpy

from mc import execm, fam, famfold, lang, real, runners
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mul, mx, op, proj, rec, red, size, sub, tofloat, v, vals, where

FAMILIES = famfold.ALL_FAMILIES

LARGE = {"comprehensions/iota", "comprehensions/generic", "folds/batched", "folds/steps", "folds/kinds", "folds/contractions",
         "folds/contraction-algebra", "indexing/extents", "indexing/carried"}


def cases(tier):
    thorough = tier == "thorough"
    for seq in itertools.product(range(len(ACTIONS)), repeat=3):
        if thorough or (seq[0] < seq[1] or seq[1] > seq[2] or seq[0] == seq[1] == seq[2]):
            yield ("history", (seq,), "histories")
    for seq in itertools.product(range(len(PROGRAMS)), repeat=2):
        yield ("environment", seq, "environments")
    for k in range(len(PROGRAMS)):
        for be in ("numpy", "torch", "jax", "naive"):
            yield ("faults", (k, be), "faults")
    seen = {}
    for name, term, spec, va in fam.progs(FAMILIES, tier):
        k = seen[name] = seen.get(name, 0) + 1
        if name in LARGE and not thorough and k % 4:
            continue
        a, b = va[k % len(va)], va[(k + 1) % len(va)]
        yield ("repeat", (term, spec, a, b, ("numpy", "torch") if thorough or k % 3 == 0 else ("numpy",)), "repeated/" + name)


# ------------------------------------------------------------------------------------------------- repetition


def same(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and a.tobytes() == b.tobytes()


def run_repeat(ctx, term, spec, dims1, dims2, backends):
    """f(x), f(y), f(x) again and once more with the inputs embedded: nothing given or returned changes."""
    _, kind = lang.rank_kind(lang.typeof(term, {}, runners.input_types(spec)))
    one, two = runners.inputs_for(spec, dict(dims1)), runners.inputs_for(spec, dict(dims2), 3)
    wants = []
    for ins in (one, two):
        try:
            wants.append(runners.model_value(term, ins))
        except lang.Unspecified:
            ctx.outside += 1
            return None
    ctx.states += 2
    for be in backends:
        f = execm.caller(term, be)
        results = []
        copies = [a.copy() for a in one + two]
        for ins, want in ((one, wants[0]), (two, wants[1]), (one, wants[0])):
            got = f(*ins)
            results.append((got, numpy.array(execm.to_host(got), copy=True)))
            ctx.transitions += 1
            what = execm.mismatch(got, want, kind)
            if what is not None:
                return f"[{be}] call {len(results)}: {what}"
            for k, (a, c) in enumerate(zip(one + two, copies)):
                if not same(a, c):
                    return f"[{be}] call {len(results)} changed input {k % len(one)}"
            for r, (g, c) in enumerate(results):
                if not same(execm.to_host(g), c):
                    return f"[{be}] call {len(results)} changed the result of call {r + 1}"
        expr = real.wrap(real.build(term, {}, [real.wrap(a) for a in one]))
        for r in range(2):
            got = expr.eval(backend=be)
            ctx.transitions += 1
            what = execm.mismatch(got, wants[0], kind)
            if what is not None:
                return f"[{be}] embedded, evaluation {r + 1}: {what}"
            if not all(same(a, c) for a, c in zip(one + two, copies)):
                return f"[{be}] evaluation {r + 1} changed a wrapped array"
    ctx.traces += 1
    return None


# --------------------------------------------------------------------------------------------------- histories

SPEC = (("f", "n"), ("i", "n"), ("f", "nn"))
A, I, M = inp(0), inp(1), inp(2)
N = size(A)
i, j, k, acc = v("i"), v("j"), v("k"), v("acc")
PROGRAMS = [
    A,
    arr("i", N, get(A, i)),
    arr("i", N, get(A, add(i, lit(1)))),
    arr("i j", [N, N], mul(add(get(M, j, i), lit(1.0)), get(A, i))),
    arr("i", N, fold(N, get(A, i), add(mul(acc, lit(0.5)), get(M, i, k)))),
    fold(lit(3), A, arr("i", N, sub(get(A, i), get(acc, get(I, i))))),
    fold(N, lit(0.0), add(acc, mul(get(A, k), get(M, k, lit(0))))),
    red(lit(0.0), add(v("rx"), v("ry")), A),
    let("w", arr("i", N, mul(get(A, i), get(A, i))), arr("i", N, add(get(v("w"), i), get(v("w"), sub(sub(N, i), lit(1)))))),
    cat(A, arr("i", lit(2), get(A, get(I, i)))),
    arr("i", lit(2), proj(fold(N, rec("tuple", lit(0.0), get(A, i)), rec("tuple", add(proj(acc, 0), get(A, k)),
                                                                         mx(proj(acc, 1), get(M, i, k)))), 1)),
    where(op("lt", N, lit(3)), A, arr("i", N, op("neg", get(A, i)))),
]


def kind_of(t):
    return lang.rank_kind(lang.typeof(t, {}, runners.input_types(SPEC)))[1]


class World:
    """Shared objects of a history: two sets of inputs, wrapped constants, expressions over them, decorated functions."""

    def __init__(self):
        from ein import function, with_varargs

        self.data = [runners.inputs_for(SPEC, {"n": 3}), runners.inputs_for(SPEC, {"n": 2}, 4)]
        self.copies = [[a.copy() for a in d] for d in self.data]
        consts = [real.wrap(a) for a in self.data[0]]
        self.closed = [real.wrap(real.build(t, {}, consts)) for t in PROGRAMS]
        self.functions = [function(real.program(t)) for t in PROGRAMS]
        self.open = []
        for t in PROGRAMS:
            vs, expr = with_varargs([execm.type_from_ndarray(a) for a in self.data[0]], real.program(t))
            self.open.append((vs, expr))
        self.wants = [[runners.model_value(t, d) for t in PROGRAMS] for d in self.data]
        self.results = []
        self.envs = []

    def invariant(self):
        for d, c in zip(self.data, self.copies):
            for n, (x, y) in enumerate(zip(d, c)):
                if not same(x, y):
                    return f"array {n} changed"
        for n, (g, c) in enumerate(self.results):
            if not same(execm.to_host(g), c):
                return f"result {n + 1} changed"
        for env, keys, vals_ in self.envs:
            if list(env) != keys or any(env[x] is not y for x, y in zip(keys, vals_)):
                return "the environment changed"
        return None

    def got(self, got, d, n):
        self.results.append((got, numpy.array(execm.to_host(got), copy=True)))
        return execm.mismatch(got, self.wants[d][n], kind_of(PROGRAMS[n]))

    def env(self, n, d):
        env = dict(zip(self.open[n][0], self.data[d]))
        self.envs.append((env, list(env), list(env.values())))
        return env


def act_closed(n, be):
    return lambda w: w.got(w.closed[n].eval(backend=be), 0, n)


def act_call(n, be, d):
    return lambda w: w.got(getattr(w.functions[n], be)(*w.data[d]), d, n)


def act_open(n, be, d):
    def do(w):
        from ein.frontend.ndarray import _to_array

        return w.got(_to_array(w.open[n][1]).eval(env=w.env(n, d), backend=be), d, n)

    return do


def act_print(n):
    def do(w):
        from ein.debug import pretty_phi, pretty_yarr_of_phi

        for x in (w.closed[n].expr, w.open[n][1]):
            str(pretty_phi(x))
            str(pretty_yarr_of_phi(x))
            repr(x.free_symbols)
        return None

    return do


class Boom(Exception):
    pass


def act_fail(n, be):
    """An evaluation that fails in the middle: an external function raises inside the program."""

    def do(w):
        from ein import array, ext, scalar_type
        from ein.frontend.ndarray import _to_array

        def boom(*a):
            raise Boom

        e = w.closed[n]
        bad = array(lambda z: ext(boom, scalar_type(float))(real.wrap(0.5) * first(e)), size=2)
        try:
            bad.eval(backend=be)
        except Boom:
            pass
        else:
            return "the exception of an external function did not reach the caller"
        # an environment that lacks a variable, one of a wrong shape, and a call with a wrong type
        env = w.env(n, 0)
        if any(x in w.open[n][1].free_symbols for x in env):
            try:
                _to_array(w.open[n][1]).eval(env={}, backend=be)
            except ValueError:
                pass
            else:
                return "evaluated without its environment"
        try:
            w.functions[n].numpy(*w.data[0][:1])
        except Exception:
            pass
        return None

    return do


def first(e):
    from ein import Scalar

    while not isinstance(e, Scalar):
        e = e[0]
    return e


ACTIONS = (
    [act_closed(0, "numpy"), act_closed(3, "numpy"), act_closed(5, "naive"), act_closed(8, "numpy"), act_closed(4, "torch")]
    + [act_call(1, "numpy", 0), act_call(1, "numpy", 1), act_call(3, "numpy", 0), act_call(5, "numpy", 1),
       act_call(4, "torch", 1), act_call(0, "numpy", 1)]
    + [act_open(2, "numpy", 0), act_open(10, "numpy", 1), act_open(8, "numpy", 0)]
    + [act_print(8), act_fail(4, "numpy"), act_fail(5, "numpy")]
)


def run_history(ctx, seq):
    w = World()
    for step, a in enumerate(seq):
        ctx.transitions += 1
        what = ACTIONS[a](w)
        if what is None:
            what = w.invariant()
        if what is not None:
            return f"step {step + 1} of {seq}: {what}"
        ctx.states += 1
    ctx.traces += 1
    return None


def run_environment(ctx, a, b):
    """One environment dictionary, holding extra variables, used for two programs on every backend in turn."""
    from ein import with_varargs
    from ein.frontend.ndarray import _to_array

    w = World()
    types = [execm.type_from_ndarray(x) for x in w.data[0]]
    shared = {}

    def both(*xs):
        shared["a"], shared["b"] = (real.wrap(real.build(PROGRAMS[n], {}, xs)) for n in (a, b))
        return shared["a"]

    vs, _ = with_varargs(types, both)
    env = dict(zip(vs, w.data[0]))
    w.envs.append((env, list(env), list(env.values())))
    for be in ("numpy", "torch", "naive"):
        for n, key in ((a, "a"), (b, "b"), (a, "a")):
            ctx.transitions += 1
            what = w.got(shared[key].eval(env=env, backend=be), 0, n) or w.invariant()
            if what is not None:
                return f"[{be}] program {n}: {what}"
    ctx.states += 1
    ctx.traces += 1
    return None


def run_faults(ctx, n, be):
    """An external function inside of the program's loops raises at its 1st, 2nd, ... call; then all is as before."""
    from ein import array, ext, fold as efold, function, scalar_type

    if be == "jax":
        return None  # the functions are staged: they are called once, when tracing
    w = World()
    count = [0]
    limit = [None]

    def tick(x):
        count[0] += 1
        if limit[0] is not None and count[0] == limit[0]:
            raise Boom
        return x

    t = ext(tick, scalar_type(float))
    e = first(w.closed[n]) if kind_of(PROGRAMS[n]) == "f" else first(w.closed[n]).float()

    def body(a, q, m):
        x = first(real.wrap(real.build(PROGRAMS[n], {}, (a, q, m))))
        inner = array(lambda i: efold(x, lambda k, s: s + t(a[k] * x) + e, count=2) + t(m[i, 0]), size=a.size())
        # the last fold has a vector accumulator, whose value at the failure must not survive
        return efold(inner, lambda k, s: array(lambda i: t(s[i]) + inner[i], size=a.size()), count=2)

    f = function(body)
    from ein import interpret_with_naive, with_varargs

    def call():
        if be == "naive":
            vs, expr = with_varargs([execm.type_from_ndarray(x) for x in w.data[0]], body)
            return interpret_with_naive(expr, dict(zip(vs, w.data[0])))
        return getattr(f, be)(*w.data[0])

    vs, expr = with_varargs([execm.type_from_ndarray(x) for x in w.data[0]], body)
    env = dict(zip(vs, w.data[0]))
    w.envs.append((env, list(env), list(env.values())))
    want = numpy.array(execm.to_host(call()))
    total, count[0] = count[0], 0
    for k in range(1, total + 1):
        limit[0], count[0] = k, 0
        try:
            call()
            return f"[{be}] the failure of call {k} of {total} was lost"
        except Boom:
            pass
        # and through .eval, with an environment of the caller's
        count[0] = 0
        try:
            real._to_array(expr).eval(env=env, backend=be)
            return f"[{be}] the failure of call {k} of {total} was lost"
        except Boom:
            pass
        limit[0] = None
        ctx.transitions += 3
        if not same(numpy.array(execm.to_host(real._to_array(expr).eval(env=env, backend=be))), want):
            return f"[{be}] a different result with the same environment after a failure at call {k}"
        if not same(numpy.array(execm.to_host(call())), want):
            return f"[{be}] a different result after a failure at call {k}"
        what = w.invariant()
        if what is not None:
            return f"[{be}] after a failure at call {k}: {what}"
    ctx.count("fault points", total)
    ctx.states += total
    ctx.traces += 1
    return None
