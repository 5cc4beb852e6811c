"""Concurrency: every schedule of two threads with one preemption (two for short operations), every point at which an
operation can be interrupted by an exception, every call of an external function that re-enters.

Operations run the real code in real threads under the scheduler of mc/sched.py.  What each must return is what it
returns on fresh objects with nothing else running.
"""
import numpy

from mc import execm, sched
from ein import array, ext, fold, function, interpret_with_naive, interpret_with_numpy, interpret_with_torch, scalar_type, with_varargs, wrap
from ein.frontend import std

F = scalar_type(float)


def nums(*shape, salt=0, kind=float):
    n = int(numpy.prod(shape, dtype=int))
    a = (numpy.arange(n) * 7 + 3 * salt) % 11 - 4
    return (a / 2 if kind is float else a).astype(kind).reshape(shape)


# ------------------------------------------------------------------------------------------------ programs


def dots(a, b):
    """A contraction and shared subterms."""
    return array(lambda i: fold(0.0, lambda k, acc: acc + a[i, k] * b[k] + (a[i, k] * b[k]) * 0.5) + b[i])


def state(a, b):
    """A record and a vector carried by loops."""
    pair = fold((0.0, 1.0), lambda k, acc: (acc[1] + b[k], acc[0] * 0.5 - b[k]), count=b.size(0))
    vec = fold(b, lambda k, acc: array(lambda j: acc[j] * 0.5 + a[k, j]), count=a.size(0))
    return array(lambda i: vec[i] * pair[0] - pair[1])


def monoids(a, b):
    """Reductions by a combiner of no known kind, of scalars and of records."""
    def step(x, y):
        return (x[0] * y[0], x[0] * y[1] + x[1])

    row = array(lambda i: array(lambda j: a[i, j] + 1.0).reduce(1.0, lambda x, y: x * y * 0.5))
    line = array(lambda j: (b[j], b[j] * 2.0)).reduce((1.0, 0.0), step)
    return array(lambda i: row[i] * line[0] + line[1])


def gathers(a, b):
    """Clipped, padded, concatenated and selected reads."""
    c = std.concat(b, array(lambda j: b[j - 1] - b[j + 1], size=b.size(0)))
    return array(lambda i, j: std.where(a[i, j] > 0.0, c[i + j], a[j, i + 1]), size=(a.size(0), b.size(0)))


def indexed(a, b):
    """Positions computed at run time."""
    return array(lambda i: b[fold(0, lambda k, acc: std.where(a[i, k] > b[acc], k, acc), count=b.size(0))] + a[i, 0])


def row(a, b):
    return array(lambda i: fold(0.0, lambda k, acc: acc + a[i, k] * b[k] * 0.5))


def pair(a, b):
    p = fold((0.0, b[0]), lambda k, acc: (acc[1] + b[k], acc[0] * 0.5 - a[k, 0]), count=2)
    return array(lambda i: b[i] * p[0])


SMALL = {"row": row, "pair": pair}
PROGRAMS = {"dots": dots, "state": state, "monoids": monoids, "gathers": gathers, "indexed": indexed}
LARGE = tuple(PROGRAMS)
PROGRAMS.update(SMALL)
ARGS = [(nums(3, 3, salt=s), nums(3, salt=s + 1)) for s in range(3)]
OTHER = [(nums(2, 2, salt=4), nums(2, salt=5)), (nums(4, 4, salt=6), nums(4, salt=7))]


def either(a):
    """A program of vectors of either kind."""
    return array(lambda i: (a[i] + a[i]) * a[i - 1]).reduce(a[0], lambda x, y: x + y)


def failing(*args):
    raise ZeroDivisionError("a host function that fails")


def fail_late(a, b):
    return array(lambda i: fold(0.0, lambda k, acc: acc + a[i, k] * failing(), count=3))


def ill_typed(a, b):
    return array(lambda i: fold(0, lambda k, acc: acc + a[i, k]))


def boom(x):
    raise ZeroDivisionError("an external function that fails")


def outcome(f):
    try:
        return ("value", host(f()))
    except Exception as e:
        return ("error", type(e).__name__)


def host(x):
    x = execm.to_host(x)
    return x


def same(x, y):
    if x[0] != y[0]:
        return False
    if x[0] == "error":
        return x[1] == y[1]
    if isinstance(x[1], tuple) or isinstance(y[1], tuple):
        return type(x[1]) is type(y[1]) and len(x[1]) == len(y[1]) and all(same(("value", p), ("value", q)) for p, q in zip(x[1], y[1]))
    return x[1].shape == y[1].shape and x[1].dtype == y[1].dtype and numpy.array_equal(x[1], y[1], equal_nan=x[1].dtype.kind == "f")


# ------------------------------------------------------------------------------------------------ scenarios
# a scenario makes fresh shared objects and returns the operations on them


def cold(prog, be="numpy", other=False):
    f = function(PROGRAMS[prog])
    args = OTHER[0] if other else ARGS[1]
    return (lambda: getattr(f, be)(*ARGS[0])), (lambda: getattr(f, be)(*args))


def warm(prog, be="numpy", other=False):
    a, b = cold(prog, be, other)
    a()
    return a, b


def kinds(be="numpy"):
    f = function(either)
    x, y = nums(3), nums(3, kind=int)
    return (lambda: getattr(f, be)(x)), (lambda: getattr(f, be)(y))


def mixed(prog, first, second):
    f = function(PROGRAMS[prog])
    return (lambda: getattr(f, first)(*ARGS[0])), (lambda: getattr(f, second)(*ARGS[1]))


def expression(prog, first="numpy", second="numpy"):
    e = PROGRAMS[prog](*[wrap(x) for x in ARGS[0]])
    return (lambda: e.eval(backend=first)), (lambda: e.eval(backend=second))


def shared_part(prog, be="numpy"):
    s = PROGRAMS[prog](*[wrap(x) for x in ARGS[0]])
    one = wrap(ARGS[1][1])
    if prog == "gathers":
        return (lambda: array(lambda i: s[i, 0] * one[i]).eval(backend=be)), (lambda: array(lambda i, j: s[j, i] + s[i, j]).eval(backend=be))
    return (lambda: array(lambda i: s[i] * one[i]).eval(backend=be)), (lambda: array(lambda i: s[i - 1] + s[i] * one[i]).eval(backend=be))


def built(prog, be="numpy"):
    return (lambda: PROGRAMS[prog](*[wrap(x) for x in ARGS[0]]).eval(backend=be)), \
           (lambda: PROGRAMS[prog](*[wrap(x) for x in OTHER[1]]).eval(backend=be))


def disturbed(prog, by, be="numpy"):
    f = function(PROGRAMS[prog])
    if by == "host":
        return (lambda: getattr(f, be)(*ARGS[0])), (lambda: function(fail_late)(*ARGS[1]))
    if by == "type":
        return (lambda: getattr(f, be)(*ARGS[0])), (lambda: f.numpy(nums(3), nums(3)))
    if by == "ill-typed":
        return (lambda: getattr(f, be)(*ARGS[0])), (lambda: function(ill_typed)(*ARGS[1]))
    g = ext(boom, F)
    e = array(lambda i: fold(0.0, lambda k, acc: acc + g(wrap(ARGS[1][0])[i, k]), count=3))
    return (lambda: getattr(f, be)(*ARGS[0])), (lambda: e.eval(backend=be))


def environments(prog, be):
    """One expression with free variables, evaluated under two environments."""
    vs, expr = with_varargs([t for t in _types(ARGS[0])], PROGRAMS[prog])
    go = {"naive": interpret_with_naive, "numpy": interpret_with_numpy, "torch": interpret_with_torch}[be]
    return (lambda: go(expr, dict(zip(vs, ARGS[0])))), (lambda: go(expr, dict(zip(vs, OTHER[0]))))


def _types(arrays):
    from ein.phi.type_system import type_from_ndarray

    return [type_from_ndarray(a) for a in arrays]


def printed(prog):
    e = PROGRAMS[prog](*[wrap(x) for x in ARGS[0]])
    d = PROGRAMS[prog](*[wrap(x) for x in ARGS[1]])
    return (lambda: len(str(e.expr)) and e.eval()), (lambda: len(str(d.expr)) and d.eval())


SCENARIOS = {
    "cold": cold, "warm": warm, "kinds": kinds, "mixed": mixed, "expression": expression, "shared": shared_part,
    "built": built, "disturbed": disturbed, "environments": environments, "printed": printed,
}


KEEP = ("cold", "warm", "kinds", "disturbed", "expression")  # what is shared is kept by the caller


def made(scenario):
    return SCENARIOS[scenario[0]](*scenario[1:])


def alone(scenario):
    a, b = made(scenario)
    return outcome(a), outcome(b)


def chosen(op, grain, per):
    """Scheduling points: the first hits of every line, up to `per`, and the last one."""
    out = []
    for n, hits in sched.points(lambda: outcome(op), grain):
        hs = list(range(1, min(per, hits) + 1))
        if hits > per:
            hs.append(hits)
        out.extend((n, h) for h in hs)
    return out


def grains(scenario, which, grain):
    """"entries": the entries of functions, and the lines of those that are not entered again and again."""
    if grain != "entries":
        return grain
    return sched.rare(lambda: outcome(made(scenario)[which]))


def fresh(scenario):
    """A maker of the operations; operations on compiled functions are used again."""
    if scenario[0] == "warm":
        ops = made(scenario)
        return lambda: ops
    return lambda: made(scenario)


def check(ctx, scenario, ops, outs, wants, how):
    for what, out, want in zip("AB", outs, wants):
        got = ("error", type(out.error).__name__) if out.error is not None else ("value", host(out.value))
        if not same(got, want):
            return f"{scenario}, {how}: {what} gives {got}, alone {want}"
    if ctx.tier == "quick" and scenario[0] not in KEEP:
        return None
    for what, op, want in zip("AB", ops, wants):
        got = outcome(op)
        if not same(got, want):
            return f"{scenario}, {how}: afterwards {what} gives {got}, alone {want}"
    return None


def run_schedule(ctx, scenario, swap, grain, per, chunk, chunks):
    """One preemption: B runs in full at every point of A."""
    wants = alone(scenario)
    if swap:
        wants = wants[::-1]
    grain = grains(scenario, swap, grain)
    make = fresh(scenario)
    for point in chosen(make()[swap], grain, per)[chunk::chunks]:
        ops = make()
        if swap:
            ops = ops[::-1]
        a, b, n = sched.run_pair(*ops, point, None, grain)
        ctx.transitions += 1
        ctx.states += 1
        ctx.count("preemptions", n)
        what = check(ctx, scenario, ops, (a, b), wants, f"A preempted at {point}")
        if what is not None:
            return what
    ctx.traces += 1
    return None


def run_two(ctx, scenario, grain, per, chunk, chunks):
    """Two preemptions: A to each of its points, B to each of its points, A to the end, B to the end."""
    wants = alone(scenario)
    make = fresh(scenario)
    pa, pb = chosen(make()[0], grain, per), chosen(make()[1], grain, per)
    for p in pa[chunk::chunks]:
        for q in pb:
            ops = make()
            a, b, n = sched.run_pair(*ops, p, q, grain)
            ctx.transitions += 1
            ctx.states += 1
            ctx.count("preemptions", n)
            what = check(ctx, scenario, () if scenario[0] == "warm" else ops, (a, b), wants, f"A preempted at {p}, B at {q}")
            if what is not None:
                return what
    ctx.traces += 1
    return None


def run_fault(ctx, scenario, grain, per, chunk, chunks):
    """An exception at every point of A; then B and A again, on the same objects."""
    wants = alone(scenario)
    grain = grains(scenario, 0, grain)
    make = fresh(scenario)
    for point in chosen(make()[0], grain, per)[chunk::chunks]:
        ops = make()
        out, hit = sched.run_fault(ops[0], point, grain)
        ctx.transitions += 1
        ctx.states += 1
        ctx.count("interruptions", int(hit))
        for what, op, want in (("B", ops[1], wants[1]), ("A", ops[0], wants[0])):
            got = outcome(op)
            if not same(got, want):
                return f"{scenario}, an exception raised at {point}: afterwards {what} gives {got}, alone {want}"
    ctx.traces += 1
    return None


# ------------------------------------------------------------------------------------------------ re-entrance

PLACES = {
    "alone": lambda g, a: g(a[0]),
    "mapped": lambda g, a: array(lambda i: g(a[i])),
    "fold": lambda g, a: fold(0.0, lambda k, acc: acc * 0.5 + g(acc + a[k]), count=a.size(0)),
    "folds": lambda g, a: array(lambda i: a[i] + fold(0.0, lambda k, acc: acc * 0.5 + g(acc + a[k]) * a[i], count=a.size(0))),
    "nested": lambda g, a: fold(0.0, lambda k, acc: acc * 0.5 + fold(acc, lambda h, x: x + g(a[h] * acc), count=a.size(0)), count=a.size(0)),
    "record": lambda g, a: fold((0.0, 1.0), lambda k, acc: (g(acc[1]) * 0.5, acc[0] + a[k]), count=a.size(0))[0],
    "vector": lambda g, a: fold(a, lambda k, acc: array(lambda j: g(acc[j]) * 0.5 + acc[a.size(0) - 1 - j]), count=a.size(0)),
    "reduce": lambda g, a: a.reduce(1.0, lambda x, y: g(x) * y),
    "shared": lambda g, a: array(lambda i: g(a[i]) * a[i] + g(a[i])),
}
WHAT = ("same, other extent", "same", "another", "failing", "nested building", "expression")


def run_reenter(ctx, place, be, what, when):
    """The when-th call of the external function evaluates something itself."""
    x, y = nums(3, salt=2), nums(4, salt=3)

    def build(inner):
        calls = [0]
        state = {}

        def g(z):
            calls[0] += 1
            if calls[0] == when + 1 and not state.get("inside"):
                state["inside"] = True
                try:
                    inner(state)
                finally:
                    state["inside"] = False
            return z * 0.5 + 1.0

        ge = ext(g, ([F], F))
        f = function(lambda a: PLACES[place](ge, a))
        state["f"] = f
        state["expr"] = PLACES[place](ge, wrap(y))
        return f, state, calls

    def nothing(state):
        pass

    f, state, calls = build(nothing)
    want = outcome(lambda: getattr(f, be)(x))
    if calls[0] <= when:
        return None
    inner_wants = {}

    def inner(state):
        if what == "same, other extent":
            state["got"] = outcome(lambda: getattr(state["f"], be)(y))
        elif what == "same":
            state["got"] = outcome(lambda: getattr(state["f"], be)(x * 2.0))
        elif what == "another":
            state["got"] = outcome(lambda: function(dots).numpy(*ARGS[0]))
        elif what == "failing":
            state["got"] = outcome(lambda: function(fail_late).numpy(*ARGS[0]))
        elif what == "nested building":
            state["got"] = outcome(lambda: array(lambda i: wrap(y)[i] + float(array(lambda j: wrap(x)[j] * 2.0).eval()[1])).eval(backend=be))
        else:
            state["got"] = outcome(lambda: state["expr"].eval(backend=be))

    f2, state2, _ = build(nothing)
    state2["inside"] = True
    inner(state2)
    inner_want = state2["got"]
    f, state, calls = build(inner)
    got = outcome(lambda: getattr(f, be)(x))
    ctx.states += 1
    ctx.transitions += 2
    if not same(got, want):
        return f"[{be}] {place}: call {when} evaluating '{what}': {got}, otherwise {want}"
    if not same(state["got"], inner_want):
        return f"[{be}] {place}: call {when} evaluating '{what}' gets {state['got']}, otherwise {inner_want}"
    calls[0] = 10**6
    again = outcome(lambda: getattr(f, be)(x))
    if not same(again, want):
        return f"[{be}] {place}: call {when} evaluating '{what}': afterwards {again}, otherwise {want}"
    ctx.traces += 1
    return None


def run_building(ctx, prog, inner, at, be):
    """A program evaluated, or built, while another is being built, at every position of the other's host functions."""
    def run(during):
        count = [0]

        def mark(z):
            count[0] += 1
            if count[0] == at + 1:
                during()
            return z

        a, b = (wrap(t) for t in ARGS[0])
        e = BUILDS[prog](mark, a, b)
        return outcome(lambda: e.eval(backend=be)), count[0]

    want, n = run(lambda: None)
    if n <= at:
        return None
    ran = []
    doing = {
        "eval": lambda: ran.append(outcome(lambda: dots(*[wrap(t) for t in ARGS[1]]).eval())),
        "call": lambda: ran.append(outcome(lambda: function(state).numpy(*ARGS[1]))),
        "fail": lambda: ran.append(outcome(lambda: function(fail_late).numpy(*ARGS[1]))),
        "build": lambda: ran.append(outcome(lambda: (state(*[wrap(t) for t in ARGS[1]]), numpy.array(0.0))[1])),
    }
    doing[inner]()
    inner_want = ran.pop()
    got, _ = run(doing[inner])
    ctx.states += 1
    ctx.transitions += 2
    if not same(got, want):
        return f"{prog}: '{inner}' at step {at} of building: {got}, otherwise {want}"
    if not same(ran[0], inner_want):
        return f"{prog}: '{inner}' at step {at} of building gives {ran[0]}, otherwise {inner_want}"
    ctx.traces += 1
    return None


BUILDS = {
    "sum": lambda m, a, b: array(lambda i: m(fold(0.0, lambda k, acc: m(acc + m(a[i, k]) * b[k])))),
    "inferred": lambda m, a, b: array(lambda i, j: m(m(a[i, j]) + m(b[i]))),
    "nested": lambda m, a, b: array(lambda i: m(array(lambda j: m(a[i, j]) * m(b[j])).reduce(0.0, lambda x, y: m(x + m(y))))),
    "vector": lambda m, a, b: fold(b, lambda k, acc: m(array(lambda j: m(acc[j]) + m(a[k, j]))), count=3),
}


# ------------------------------------------------------------------------------------------------ cases


def scenarios(thorough):
    for p in SMALL:
        yield ("cold", p)
    for p in SMALL if not thorough else PROGRAMS:
        yield ("built", p)
        yield ("shared", p)
        yield ("mixed", p, "numpy", "torch")
        yield ("expression", p)
    yield ("printed", "row")
    for by in ("host", "type", "ill-typed", "external"):
        yield ("disturbed", "row" if by != "external" else "pair", by)
    yield ("kinds",)
    yield ("environments", "state", "naive")
    yield ("environments", "row", "numpy")
    if thorough:
        for p in LARGE:
            yield ("cold", p)
        for p in PROGRAMS:
            yield ("cold", p, "torch")
            yield ("cold", p, "numpy", True)
            yield ("mixed", p, "torch", "numpy")
            yield ("expression", p, "naive", "numpy")
            yield ("expression", p, "torch", "naive")
            for be in ("naive", "numpy", "torch"):
                yield ("environments", p, be)
        yield ("kinds", "torch")


def cases(tier):
    thorough = tier == "thorough"
    chunks = 16 if thorough else 4
    for p in LARGE:
        for be in ("numpy", "torch"):
            for other in (False, True):
                for c in range(4):
                    yield ("schedule", (("warm", p, be, other), 0, "opcode", 10**6 if thorough else 2, c, 4), "evaluations, every instruction")
                for c in range(2):
                    yield ("fault", (("warm", p, be, other), "opcode" if thorough else "line", 3, c, 2), "faults in evaluations")
    for p in LARGE if thorough else SMALL:
        for c in range(16):
            yield ("two", (("warm", p, "numpy", True), "line", 4 if thorough else 1, c, 16), "evaluations, two preemptions")
    for s in scenarios(thorough):
        swaps = (0, 1) if thorough or s[0] == "mixed" else (0,)
        grain, per = ("line", 4) if thorough else ("entries", 1)
        for swap in swaps:
            for c in range(chunks):
                yield ("schedule", (s, swap, grain, per, c, chunks), "compilations")
        for c in range(chunks if thorough or s[0] in ("cold", "expression", "environments") else 0):
            yield ("fault", (s, grain, per, c, chunks), "faults")
    for place in PLACES:
        for be in ("numpy", "torch", "jax") if thorough else ("numpy", "torch"):
            for what in WHAT:
                for when in range(12 if thorough else 6):
                    yield ("reenter", (place, be, what, when), "re-entrance")
    for prog in BUILDS:
        for inner in ("eval", "call", "fail", "build"):
            for at in range(8):
                for be in ("numpy", "naive"):
                    yield ("building", (prog, inner, at, be), "while building")


CASE_CPU_S = 600
