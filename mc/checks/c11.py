"""Compiler options: every program gives the model's value under every combination of the options of the compiler."""
import inspect
import itertools

from mc import execm, fam, famfold, lang, real, runners  # noqa: F401
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mn, mul, mx, op, proj, rec, red, size, sub, tofloat, v, vals, where

from ein.codegen import phi_to_yarr


def options():
    """The boolean options of the compiler, and their defaults."""
    return {n: p.default for n, p in inspect.signature(phi_to_yarr.transform).parameters.items()
            if isinstance(p.default, bool)}


OPTIONS = options()
NAMES = sorted(OPTIONS)


class chosen:
    """The compiler uses the given options, however it is called."""

    def __init__(self, values):
        self.values = values

    def __enter__(self):
        f = phi_to_yarr.transform
        self.saved = f.__kwdefaults__
        f.__kwdefaults__ = {**(f.__kwdefaults__ or {}), **self.values}

    def __exit__(self, *exc):
        phi_to_yarr.transform.__kwdefaults__ = self.saved


def combos(full):
    n = len(NAMES)
    every = list(itertools.product((False, True), repeat=n))
    if full:
        return every
    # all off, one on, two on, one off
    return [c for c in every if sum(c) <= 2 or sum(c) == n - 1]


def few():
    n = len(NAMES)
    return [c for c in itertools.product((False, True), repeat=n) if sum(c) in (0, n - 1)]


LARGE = {"indexing/own", "indexing/extents", "indexing/carried", "folds/resized", "folds/contraction-algebra",
         "comprehensions/pairs", "comprehensions/inner", "comprehensions/iota", "comprehensions/generic",
         "indexing/chains", "indexing/two", "folds/steps", "folds/kinds", "folds/batched", "folds/contractions",
         "folds/nested-contractions", "folds/shifted-contractions", "folds/vectors", "folds/records",
         "folds/folds-in-folds"}


def cases(tier):
    thorough = tier == "thorough"
    for k in range(len(MIXED)):
        for be in ("numpy", "torch"):
            yield ("mixed", (k, be), "mixtures")
    seen = {}
    for name, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier if thorough else "quick"):
        k = seen[name] = seen.get(name, 0) + 1
        if thorough:
            yield ("options", (term, spec, va[:3], True), name)
        elif name not in LARGE or k % 8 == 0:
            yield ("options", (term, spec, (va[k % len(va)],), False), name)


def check(ctx, term, spec, valuations, combo, be):
    kind = lang.rank_kind(lang.typeof(term, {}, runners.input_types(spec)))[1]
    opts = dict(zip(NAMES, combo))
    with chosen(opts):
        f = execm.caller(term, be)
        for dims, ins, want in valuations:
            ctx.transitions += 1
            try:
                what = execm.mismatch(f(*ins), want, kind)
            except Exception as e:
                what = f"raised {type(e).__name__}: {str(e)[:300]}"
            if what is not None:
                on = [n for n in NAMES if opts[n]]
                return f"[{be}] with only {on} in use: {what}; dims {dims}"
    return None


def points(ctx, term, spec, va):
    out = []
    for dims in va:
        dims = dict(dims)
        ins = runners.inputs_for(spec, dims)
        try:
            out.append((dims, ins, runners.model_value(term, ins)))
            ctx.states += 1
        except lang.Unspecified:
            ctx.outside += 1
    return out


def run_options(ctx, term, spec, va, full):
    pts = points(ctx, term, spec, va)
    if not pts:
        return None
    for combo in combos(False) if full else few():
        what = check(ctx, term, spec, pts, combo, "numpy")
        if what is not None:
            return what
    ctx.traces += 1
    return None


def run_mixed(ctx, k, be):
    term, va = MIXED[k]
    pts = points(ctx, term, SPEC, va)
    for combo in combos(True) if be == "numpy" or ctx.tier == "thorough" else few():
        what = check(ctx, term, SPEC, pts, combo, be)
        if what is not None:
            return what
    ctx.traces += 1
    return None


SPEC = (("f", "n"), ("i", "n"), ("f", "mn"), ("f", "nn"))
A, Q, M, S = inp(0), inp(1), inp(2), inp(3)
N, R = size(A), size(M)
i, j, k, acc = v("i"), v("j"), v("k"), v("acc")
VA = vals("nm", (3, 2), (1, 1), (2, 3))
VA0 = VA + vals("nm", (0, 2))


def dot(a, b, n=N, i="k", acc="acc"):
    return fold(n, lit(0.0), add(v(acc), mul(a, b)), i=i, acc=acc)


def windows():
    for e in (i, add(i, lit(1)), sub(i, lit(1)), sub(sub(N, i), lit(1)), mx(sub(i, lit(2)), lit(0)), mn(add(i, lit(2)), sub(N, lit(1))),
              get(Q, i), add(get(Q, i), i), mul(i, lit(2)), lit(1)):
        yield e


MIXED = []
for e1 in windows():
    for e2 in windows():
        if e1 <= e2:
            MIXED.append((arr("i", N, sub(get(A, e1), mul(lit(2.0), get(A, e2)))), VA0))
    MIXED.append((arr("i", N, dot(get(S, e1, k), get(A, k))), VA0))
    MIXED.append((arr("i", N, dot(get(S, k, e1), get(S, e1, k))), VA0))
    MIXED.append((arr("i", N, fold(N, lit(0.5), mx(acc, get(S, k, e1)))), VA0))
    MIXED.append((arr("i", N, fold(N, lit(0.5), add(acc, get(A, add(k, e1))))), VA0))
    MIXED.append((arr("i j", [N, R], mul(get(M, j, e1), get(A, e1))), VA0))
    MIXED.append((arr("i", N, red(lit(0.0), add(v("rx"), v("ry")), arr("j", N, get(S, e1, j)))), VA0))
    MIXED.append((arr("i", N, proj(fold(lit(2), rec("tuple", get(A, e1), lit(1)), rec("tuple", mul(proj(acc, 0), get(A, i)),
                                                                                      add(proj(acc, 1), k))), 0)), VA0))
MIXED += [
    (arr("i j", [R, R], dot(get(M, i, k), get(M, j, k))), VA0),
    (arr("i j", [R, R], add(dot(get(M, i, k), get(M, j, k)), lit(1.0))), VA0),
    (arr("i j", [R, N], sub(dot(get(M, i, k), get(S, k, j)), dot(get(M, i, k), get(S, j, k), i="k"))), VA0),
    (arr("i", N, dot(get(A, k), dot(get(S, k, v("l")), get(S, v("l"), i), i="l", acc="acc2"))), VA0),
    (arr("i", N, fold(N, lit(0.0), add(acc, mul(get(A, k), fold(R, lit(0.0), add(v("acc2"), get(M, v("l"), k)), i="l", acc="acc2"))))), VA0),
    (fold(N, lit(0.0), add(acc, mul(get(A, k), get(A, sub(sub(N, k), lit(1)))))), VA0),
    (fold(sub(N, lit(1)), lit(0.0), add(acc, mul(get(A, k), get(A, add(k, lit(1)))))), VA),
    (let("w", arr("i j", [N, N], get(S, j, i)), arr("i j", [N, N], sub(get(v("w"), i, j), get(v("w"), j, i)))), VA0),
    (let("w", arr("i", N, rec("tuple", get(A, i), get(Q, i))), arr("i", N, add(proj(get(v("w"), i), 0),
                                                                         tofloat(proj(get(v("w"), add(i, lit(1))), 1))))), VA0),
    (arr("i", N, get(cat(A, A), add(i, N))), VA0),
    (arr("i j", [N, lit(2)], get(cat(A, A), add(i, j))), VA0),
    (fold(lit(3), A, arr("i", N, add(get(acc, add(i, lit(1))), get(acc, sub(i, lit(1)))))), VA),
    (fold(lit(2), S, arr("i j", [N, N], dot(get(acc, i, v("z")), get(acc, v("z"), j), i="z", acc="s"))), VA0),
    (arr("i", size(arr("j", [add(N, lit(1))], tofloat(j))), tofloat(i)), VA0),
    (arr("i", N, where(op("lt", get(A, i), lit(0.0)), get(A, sub(i, lit(1))), fold(N, lit(0.0), add(acc, get(S, k, i))))), VA0),
    (proj(red(rec("tuple", lit(0.0), lit(0)), rec("tuple", add(proj(v("rx"), 0), proj(v("ry"), 0)), mx(proj(v("rx"), 1), proj(v("ry"), 1))),
              arr("i", N, rec("tuple", get(A, i), mx(get(Q, i), lit(0))))), 0), VA0),
]
