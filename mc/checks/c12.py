"""Sharing: how many times external functions placed in programs are called, on how many elements, and that programs with
exponentially many paths to few distinct subexpressions are built and evaluated at all."""
import itertools
import sys

import numpy

from mc import execm, lang, real, runners
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mul, mx, op, proj, rec, red, size, sub, tofloat, v, where

CASE_CPU_S = 40


class Tick:
    def __init__(self):
        self.calls = 0
        self.elements = 0

    def reset(self):
        self.calls = self.elements = 0

    def __call__(self, x):
        self.calls += 1
        n = 1
        for d in x.shape:
            n *= int(d)
        self.elements += n
        return x + 0.0


TICKS = {f"tick{k}": Tick() for k in range(3)}
real.EXTS.update(TICKS)
for name in TICKS:
    lang.EXTS[name] = lambda a: a


def tick(k, x):
    return ("ext", f"tick{k}", x)


# --------------------------------------------------------------------------------------------- the model's bounds


def free(t):
    """The names a term mentions and does not bind."""
    k = t[0]
    if k == "v":
        return {t[1]}
    if k == "arr":
        out = free(t[3]) - set(t[1])
        for s in t[2]:
            out |= free(s)
        return out
    if k == "fold":
        return free(t[3]) | free(t[4]) | (free(t[5]) - {t[1], t[2]})
    if k == "red":
        return free(t[3]) | (free(t[4]) - {t[1], t[2]}) | free(t[5])
    return set().union(*(free(s) for s in children(t)), set())


def children(t):
    for s in t[1:]:
        if isinstance(s, tuple) and s and isinstance(s[0], str) and s[0] in FORMS:
            yield s
        elif isinstance(s, tuple):
            for r in s:
                if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] in FORMS:
                    yield r


FORMS = {"lit", "in", "v", "op", "where", "get", "arr", "fold", "red", "cat", "size", "rec", "proj", "let", "ext", "extv"}


def bounds(term, ins):
    """For every external function: the largest number of calls, and of elements they receive (None: not bounded)."""
    nodes = {}

    def evals(t, stack):
        """stack: the enclosing loops, (names, trips, extent of an index, node), outermost first."""
        f = free(t)
        for d in reversed(range(len(stack))):
            names, trips, node, _ = stack[d]
            if trips is not None and f & names:
                return trips * evals(node, stack[:d])
        return 1

    def extent(t, stack):
        f, n, accs = free(t), 1, False
        for names, trips, node, ext in stack:
            if trips is None and f & names:
                n *= ext
            if trips is not None and node[0] == "red" and f & names or node[0] == "fold" and node[2] in f:
                accs = True
        return None if accs else n

    def walk(t, stack, sizes):
        k = t[0]
        if k == "ext" and t[1] in TICKS:
            c, e = evals(t, stack), extent(t, stack)
            nodes.setdefault(t[1], {})[t] = (c, None if e is None else c * e)
        if k == "arr":
            for s in t[2]:
                walk(s, stack, sizes)
            st = stack
            for nm, s in zip(t[1], t[2]):
                st = st + [({nm}, None, t, trip(s))]
            walk(t[3], st, sizes)
        elif k == "fold":
            walk(t[3], stack, sizes)
            walk(t[4], stack, sizes)
            walk(t[5], stack + [({t[1], t[2]}, max(trip(t[3]), 1), t, None)], sizes)
        elif k == "red":
            walk(t[3], stack, sizes)
            walk(t[5], stack, sizes)
            walk(t[4], stack + [({t[1], t[2]}, 2 * 5 + 1, t, None)], sizes)
        else:
            for s in children(t):
                walk(s, stack, sizes)

    def trip(s):
        return lang.evaluate(s, {}, ins)

    walk(lang.without_lets(term), [], {})
    out = {}
    for name, m in nodes.items():
        cs, es = [c for c, _ in m.values()], [e for _, e in m.values()]
        out[name] = (sum(cs), None if None in es else sum(es))
    return out


# ------------------------------------------------------------------------------------------------------- programs

SPEC = (("f", "n"), ("f", "nn"))
A, M = inp(0), inp(1)
DIMS = {"n": 4}
EXT = (3, 2, 4)


def cases(tier):
    thorough = tier == "thorough"
    for depth in (1, 2, 3):
        letters = "ASGDTRV" if depth < 3 or thorough else "ASGT"
        for nest in itertools.product(letters, repeat=depth):
            for mode in MODES:
                for term in programs("".join(nest), mode):
                    yield ("counts", (term, ("numpy", "torch")), f"depth {depth}, {mode}")
    for k, term in enumerate(SPECIAL):
        yield ("counts", (term, ("numpy", "torch")), "special")
    for name in CHAINS:
        for what in ("numpy", "torch", "naive", "jax", "twin", "function"):
            for n in (8, 26) if what != "jax" else (8, 20):
                yield ("chain", (name, what, n), "chains")


def level(letter, l, inner):
    i, k, c = f"i{l}", f"k{l}", f"c{l}"
    n = lit(EXT[l])
    if letter == "A":
        return arr(i, n, inner)
    if letter == "S":
        return fold(n, lit(0.0), add(v(c), inner), i=k, acc=c)
    if letter == "G":
        return fold(n, lit(0.25), add(mul(v(c), lit(0.5)), inner), i=k, acc=c)
    if letter == "D":
        return fold(n, lit(0.0), add(v(c), mul(get(A, v(k)), inner)), i=k, acc=c)
    if letter == "T":
        return proj(fold(n, rec("tuple", lit(0.0), lit(1.0)), rec("tuple", add(proj(v(c), 1), inner), mul(proj(v(c), 0), lit(0.5))),
                         i=k, acc=c), 0)
    if letter == "V":
        return get(fold(n, A, arr(i, size(A), add(mul(get(v(c), v(i)), lit(0.5)), inner)), i=k, acc=c), lit(1))
    if letter == "R":
        return red(lit(0.0), add(v("x" + c), v("y" + c)), arr(i, n, inner), x="x" + c, y="y" + c)


def symbols_of(letter, l):
    """(terms that depend on a symbol bound at the level)."""
    i, k, c = f"i{l}", f"k{l}", f"c{l}"
    if letter in "AR":
        return [get(A, v(i))]
    if letter in "SGD":
        return [get(A, v(k)), v(c)] if letter == "G" else [get(A, v(k))]
    if letter == "T":
        return [get(A, v(k)), proj(v(c), 0)]
    return [get(A, v(k)), get(v(c), v(i)), get(A, v(i))]


MODES = ("once", "twice", "levels", "nested", "vector")


def programs(nest, mode):
    per = []
    for l, letter in enumerate(nest):
        syms = symbols_of(letter, l)
        per.append([()] + [(s,) for s in syms] + ([tuple(syms[:2])] if len(syms) > 1 and len(nest) < 3 else []))
    for choice in itertools.product(*per):
        deps = [s for c in choice for s in c]
        x = lit(0.5)
        for s in deps:
            x = add(x, s)
        deepest = max([l for l, c in enumerate(choice) if c], default=-1)
        t = tick(0, x)
        if mode == "once":
            inner, extra = t, None
        elif mode == "twice":
            inner, extra = add(t, mul(t, lit(2.0))), None
        elif mode == "levels":
            if deepest == len(nest) - 1:
                continue
            inner, extra = t, t
        elif mode == "nested":
            inner, extra = add(tick(1, add(t, get(A, lit(1)))), t), None
        else:
            # a vector of calls read at two places; built once
            inner, extra = let("w", arr("z", lit(3), tick(0, add(x, get(A, v("z"))))), add(get(v("w"), lit(0)), get(v("w"), lit(2)))), None
        body = inner
        for l in reversed(range(len(nest))):
            body = level(nest[l], l, body)
            if nest[l] == "A" and l:
                body = get(body, lit(1))
            if extra is not None and deepest < l:
                body = add(body, extra) if not (nest[l] == "A" and not l) else arr("o", lit(EXT[0]), add(get(body, v("o")), extra))
        yield body


i, j, k, acc = v("i"), v("j"), v("k"), v("acc")
R = arr("i", size(A), rec("tuple", tick(0, get(A, i)), tick(1, get(A, i))))
SPECIAL = [
    # fields of records, computed together and apart
    let("r", R, arr("j", size(A), add(proj(get(v("r"), j), 0), proj(get(v("r"), j), 1)))),
    let("r", R, arr("j", size(A), mul(proj(get(v("r"), j), 0), proj(get(v("r"), add(j, lit(1))), 0)))),
    let("s", tick(0, get(A, lit(0))), arr("i", size(A), where(op("lt", v("s"), get(A, i)), v("s"), mul(v("s"), lit(2.0))))),
    let("s", tick(0, get(A, lit(0))), cat(arr("i", lit(2), v("s")), arr("i", lit(2), mul(v("s"), lit(2.0))))),
    let("w", arr("i", size(A), tick(0, get(A, i))), fold(size(v("w")), lit(0.0), add(acc, mul(get(v("w"), k), get(v("w"), sub(lit(3), k)))))),
    let("w", arr("i", size(A), tick(0, get(A, i))), arr("i j", [size(A), size(A)], mul(get(v("w"), i), get(v("w"), j)))),
    let("w", arr("i", size(A), tick(0, get(A, i))), arr("i", size(A), fold(size(A), lit(0.0), add(acc, mul(add(get(v("w"), k), get(v("w"), i)),
                                                                                              sub(get(v("w"), k), get(M, k, i))))))),
    let("w", arr("i", size(A), tick(0, get(A, i))), red(lit(0.0), add(v("rx"), v("ry")), cat(v("w"), v("w")))),
    let("w", arr("i j", [size(A), size(A)], tick(0, get(M, i, j))), arr("i j", [size(A), size(A)], sub(get(v("w"), i, j), get(v("w"), j, i)))),
    let("s", fold(size(A), lit(0.0), add(acc, tick(0, get(A, k)))), let("t", add(v("s"), v("s")), mul(v("t"), v("t")))),
    let("s", fold(lit(3), lit(0.5), add(mul(acc, lit(0.5)), tick(0, mul(acc, get(A, k))))),
        arr("i", size(A), add(v("s"), fold(lit(2), v("s"), add(mul(acc, lit(0.5)), v("s")))))),
    fold(lit(3), lit(0.5), add(mul(acc, lit(0.5)), fold(lit(2), lit(0.5), add(mul(v("a2"), lit(0.5)), tick(0, get(A, lit(2)))), i="k2", acc="a2"))),
    fold(lit(3), lit(0.5), add(mul(acc, lit(0.5)), fold(lit(2), lit(0.5), add(mul(v("a2"), lit(0.5)), tick(0, get(A, v("k2")))), i="k2", acc="a2"))),
    fold(lit(3), lit(0.5), add(mul(acc, lit(0.5)), fold(lit(2), acc, add(mul(v("a2"), lit(0.5)), tick(0, get(A, k))), i="k2", acc="a2"))),
    fold(lit(3), A, let("w", arr("i", size(A), tick(0, get(acc, i))), arr("i", size(A), add(mul(get(v("w"), i), lit(0.5)), get(v("w"), lit(0)))))),
    # sizes and counts
    arr("i", size(arr("j", size(A), tick(0, get(A, j)))), tofloat(i)),
    fold(size(arr("j", size(A), tick(0, get(A, j)))), lit(0.5), mul(acc, lit(0.5))),
    # two comprehensions over one index expression; the same indices in both
    let("s", arr("i", lit(3), tick(0, get(A, i))), let("t", arr("i", lit(3), mul(get(v("s"), i), get(v("s"), i))),
                                                     arr("i", lit(3), add(get(v("s"), i), get(v("t"), i))))),
    arr("i", lit(3), let("s", tick(0, get(A, i)), fold(lit(2), v("s"), add(mul(acc, lit(0.5)), mul(v("s"), get(A, k)))))),
    arr("i", lit(3), let("s", tick(0, get(A, i)), arr("j", lit(2), mul(v("s"), get(A, j))))),
    arr("i", lit(3), arr("j", lit(2), add(tick(0, get(A, i)), tick(1, get(A, j))))),
    arr("i j", [lit(3), lit(2)], mul(tick(0, get(A, j)), tick(0, get(A, i)))),
]


def run_counts(ctx, term, backends):
    ins = runners.inputs_for(SPEC, DIMS)
    kind = lang.rank_kind(lang.typeof(term, {}, runners.input_types(SPEC)))[1]
    want = runners.model_value(term, ins)
    limit = bounds(term, [execm.to_model(a) for a in ins])
    ctx.states += 1
    for be in backends:
        f = execm.caller(term, be)
        for call in range(2):
            for t in TICKS.values():
                t.reset()
            what = execm.mismatch(f(*ins), want, kind)
            ctx.transitions += 1
            if what is not None:
                return f"[{be}] {what}"
            for name, t in TICKS.items():
                c, e = limit.get(name, (0, 0))
                if t.calls > c:
                    return f"[{be}] {name} was called {t.calls} times instead of at most {c}"
                if e is not None and t.elements > e:
                    return f"[{be}] {name} was applied to {t.elements} elements instead of at most {e}"
                if c and not t.calls and "ext" in str(term) and not call and name == "tick0" and be == "numpy":
                    ctx.count("programs that did not need the call")
    ctx.count("calls observed", sum(t.calls for t in TICKS.values()))
    ctx.traces += 1
    return None


# --------------------------------------------------------------------------------------------------------- chains

S0 = 0.5
V0 = numpy.array([0.5, 0.25, 1.0])
Q0 = numpy.array([1, 2, 0])


def build_chains():
    from ein import Vec, array, ext, fold, scalar_type, wrap
    from ein.frontend import std

    half = ext(lambda p, q: p * 0.5 + q * 0.5, scalar_type(float))
    s, vec, q = "s", "v", "q"
    return {
        "add": (s, lambda x: x * 0.5 + x * 0.5),
        "multiply": (s, lambda x: x * x + (1.0 - x) * x),
        "where": (s, lambda x: std.where(x < 0.7, x, x * 1.0)),
        "min": (s, lambda x: x.min(x * 2.0)),
        "vector": (vec, lambda x: array(lambda i: x[i] * 0.5 + x[i] * 0.5, size=3)),
        "reversed": (vec, lambda x: array(lambda i: x[i] * 0.5 + x[2 - i] * 0.5, size=3)),
        "inferred": (vec, lambda x: array(lambda i: x[i] * 0.5 + x[i] * 0.5)),
        "inferred reversed": (vec, lambda x: array(lambda i: x[i] * 0.5 + x[2 - i] * 0.5)),
        "size": (vec, lambda x: array(lambda i: x[i] * 0.5 + x[i] * 0.5, size=x.size())),
        "concat": (vec, lambda x: array(lambda i: x.concat(x)[i + 1], size=3)),
        "fold": (s, lambda x: fold(x, lambda k, a: a * 0.5 + x * 0.5, count=2)),
        "fold body": (s, lambda x: fold(0.5, lambda k, a: a * 0.5 + x * 0.5, count=2)),
        "fold sum": (s, lambda x: fold(0.0, lambda k, a: a + x * 0.25, count=4) * 0.5 + x * 0.5),
        "fold dot": (vec, lambda x: array(lambda i: fold(0.0, lambda k, a: a + x[k] * x[i], count=3) * 0.3, size=3)),
        "fold inferred": (vec, lambda x: array(lambda i: fold(0.0, lambda k, a: a + x[k] * x[i]) * 0.3)),
        "fold in a vector": (vec, lambda x: array(lambda i: fold(0.5, lambda k, a: a * 0.5 + x[k] * 0.25 + x[i] * 0.25, count=2))),
        "fold count": (vec, lambda x: array(lambda i: fold(0.5, lambda k, a: a * 0.5 + x[i] * 0.5, count=x.size()))),
        "fold of a vector": (vec, lambda x: fold(x, lambda k, a: array(lambda i: a[i] * 0.5 + x[i] * 0.5), count=2)),
        "reduce": (vec, lambda x: array(lambda i: x.reduce(0.0, lambda p, r: p + r) * 0.2 + x[i] * 0.4, size=3)),
        "reduce of a vector": (vec, lambda x: array(lambda i: array(lambda j: x[j] * x[i]).reduce(0.0, lambda p, r: p + r) * 0.4)),
        "pair": ("ss", lambda x: (x[0] * 0.5 + x[1] * 0.5, x[1] * 0.5 + x[0] * 0.5)),
        "pair in a fold": ("ss", lambda x: fold(x, lambda k, a: (a[0] * 0.5 + x[1] * 0.5, a[1] * 0.5 + x[0] * 0.5), count=2)),
        "vector of pairs": ("vp", lambda x: array(lambda i: (x[i][0] * 0.5 + x[i][1] * 0.5, x[2 - i][0]), size=3)),
        "vector of pairs, inferred": ("vp", lambda x: array(lambda i: (x[i][0] * 0.5 + x[i][1] * 0.5, x[2 - i][0]))),
        "index": (q, lambda x: array(lambda i: x[x[i]], size=3)),
        "index inferred": (q, lambda x: array(lambda i: x[x[i]])),
        "external": (s, lambda x: half(x, x)),
        "where vector": (vec, lambda x: std.where(x[0] < 0.7, x, x)),
        "assume": (s, lambda x: (x * 0.5).assume(x) + x * 0.5),
    }


CHAINS = ("add", "multiply", "where", "min", "vector", "reversed", "inferred", "inferred reversed", "size", "concat", "fold",
          "fold body", "fold sum", "fold dot", "fold inferred", "fold in a vector", "fold count", "fold of a vector", "reduce",
          "reduce of a vector", "pair", "pair in a fold", "vector of pairs", "vector of pairs, inferred", "index",
          "index inferred", "external", "where vector", "assume")


def reference(name, n):
    """The chain on plain Python numbers."""
    c3 = lambda j: max(0, min(2, j))  # noqa: E731
    s, x = S0, V0.tolist()
    step = {
        "multiply": lambda s: s * s + (1.0 - s) * s,
    }
    q = Q0.tolist()
    vp = [(x[j], x[2 - j]) for j in range(3)]
    pr = (S0, S0)
    for _ in range(n):
        if name in step:
            s = step[name](s)
        if name == "fold sum":
            s = s * 1.0 * 0.5 + s * 0.5
        if name in ("reversed", "inferred reversed"):
            x = [x[j] * 0.5 + x[2 - j] * 0.5 for j in range(3)]
        if name == "concat":
            x = [(x + x)[j + 1] for j in range(3)]
        if name in ("fold dot", "fold inferred"):
            x = [sum(y * x[j] for y in x) * 0.3 for j in range(3)]
        if name == "fold in a vector":
            o = []
            for j in range(3):
                a = 0.5
                for k in range(2):
                    a = a * 0.5 + x[k] * 0.25 + x[j] * 0.25
                o.append(a)
            x = o
        if name == "fold body":
            a = 0.5
            for k in range(2):
                a = a * 0.5 + s * 0.5
            s = a
        if name == "fold count":
            o = []
            for j in range(3):
                a = 0.5
                for k in range(3):
                    a = a * 0.5 + x[j] * 0.5
                o.append(a)
            x = o
        if name == "reduce":
            t = sum(x)
            x = [t * 0.2 + y * 0.4 for y in x]
        if name == "reduce of a vector":
            x = [sum(y * x[j] for y in x) * 0.4 for j in range(3)]
        if name.startswith("vector of pairs"):
            vp = [(vp[j][0] * 0.5 + vp[j][1] * 0.5, vp[2 - j][0]) for j in range(3)]
        if name.startswith("index"):
            q = [q[c3(q[j])] for j in range(3)]
    if name.startswith("vector of pairs"):
        return vp[0][0]
    if name.startswith("index"):
        return q[0]
    if name.startswith("pair"):
        return pr[0]
    kind = build_chains()[name][0]
    return s if kind == "s" else x[0]


def run_chain(ctx, name, what, n):
    """A chain of n steps, each of which uses the previous one at least twice."""
    from ein import Scalar, array, function, wrap

    sys.setrecursionlimit(20000)
    kind, step = build_chains()[name]

    def start(s, x, q):
        return {"s": s, "v": x, "q": q, "ss": (s, s), "vp": None}[kind] if kind != "vp" else array(
            lambda i: (x[i], x[2 - i]), size=3)

    def chain(s, x, q):
        y = start(s, x, q)
        for _ in range(n):
            y = step(y)
        while not isinstance(y, Scalar):
            y = y[0]
        return y

    want = reference(name, n)
    if what == "function":
        f = function(chain)
        got = f.numpy(numpy.array(S0), V0, Q0)
        got = f.numpy(numpy.array(S0), V0, Q0)
    elif what == "twin":
        a, b = (chain(wrap(S0), wrap(V0), wrap(Q0)) for _ in range(2))
        got = (a + b).eval()
        want = want * 2
        if not (a.expr.hash == b.expr.hash) == bool(a.expr == b.expr) and kind == "s" and "fold" not in name:
            return "equal terms differ"
    else:
        got = chain(wrap(S0), wrap(V0), wrap(Q0)).eval(backend=what)
    ctx.transitions += 1
    ctx.states += n
    ctx.traces += 1
    if abs(float(got) - want) > 1e-9 * max(1.0, abs(want)):
        return f"{name}, {n} steps [{what}]: {float(got)} instead of {want}"
    return None
