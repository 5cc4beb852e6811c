"""Records: every field of every construct over records has the value of that field's own program."""
import dataclasses
import itertools

from mc import execm, lang, real, runners
from mc.fam import (add, arr, cat, fold, get, inp, let, lit, mn, mul, op, proj, rec, red, size, sub, tofloat, v, where)

# A shape: 'f' | 'i' | 'b' | ('v', shape) | (kind, shape, ...)
KINDS = ("tuple", "list", "dict", "odd", "P", "Q")
SPEC = (("f", "n"), ("i", "n"), ("b", "n"), ("f", "s"))
F, I, B, G = (inp(k) for k in range(4))
N, S = size(F), size(G)

SHAPES = {
    "pair": ("tuple", "f", "i"),
    "single": ("tuple", "f"),
    "dict": ("dict", "f", "i", "b"),
    "odd": ("odd", "i", "f", "b"),
    "list": ("list", "f", "f", "f"),
    "data": ("P", "f", ("tuple", "i", "f")),
    "data2": ("Q", ("tuple", "f"), ("dict", "b", "i"), ("v", "f")),
    "left": ("tuple", ("tuple", "f", "i"), "b"),
    "right": ("tuple", "b", ("list", "f", ("P", "i", "f"))),
    "vecs": ("tuple", ("v", "f"), ("v", "i")),
    "vecrec": ("P", ("v", ("tuple", "f", "i")), "i"),
    "deep": ("dict", ("P", ("odd", "f", "i"), ("v", "i")), "f"),
}


def is_rec(s):
    return isinstance(s, tuple) and s[0] in KINDS


def make(s, t, salt=0, counter=None):
    """A record term of the shape: every leaf is another function of the position t."""
    counter = counter if counter is not None else [salt]
    if is_rec(s):
        return rec(s[0], *[make(x, t, salt, counter) for x in s[1:]])
    if isinstance(s, tuple):
        name = f"u{counter[0]}"
        return arr(name, lit(2), make(s[1], add(t, v(name)), salt, counter))
    counter[0] += 1
    c = counter[0]
    if s == "f":
        return add(get(F, t), lit(float(c)))
    if s == "i":
        return mul(add(get(I, t), lit(c)), lit(3))
    return op("eq" if c % 2 else "ne", get(B, t) if False else op("lt", get(I, t), lit(c)), lit(0)) if False else \
        op("and" if c % 2 else "or", get(B, t), op("lt", get(I, t), lit(c)))


def zipped(s, a, b, fs, name="z"):
    """Combines two records of the shape leaf by leaf."""
    if is_rec(s):
        return rec(s[0], *[zipped(x, proj(a, k), proj(b, k), fs, f"{name}{k}") for k, x in enumerate(s[1:])])
    if isinstance(s, tuple):
        return arr(name, lit(2), zipped(s[1], get(a, v(name)), get(b, v(name)), fs, name + "_"))
    return fs[s](a, b)


def ident(s, vals):
    if is_rec(s):
        return rec(s[0], *[ident(x, vals) for x in s[1:]])
    if isinstance(s, tuple):
        return arr("idn", lit(2), ident(s[1], vals))
    return lit(vals[s])


ADD = {"f": add, "i": add, "b": lambda a, b: op("or", a, b)}
ZERO = {"f": 0.0, "i": 0, "b": False}
LAST = {"f": lambda a, b: where(op("eq", b, lit(0.0)), a, b), "i": lambda a, b: where(op("eq", b, lit(0)), a, b),
        "b": lambda a, b: op("or", a, b)}
STEP = {"f": lambda a, b: sub(mul(a, lit(2.0)), b), "i": lambda a, b: sub(b, a), "b": lambda a, b: op("and", op("not", a), b)}
X, Y = v("rx"), v("ry")


def vecs(s, depth, i):
    """Vectors of records of the shape; i: an outer integer term."""
    base = arr("t", N, make(s, v("t")))
    yield base
    if depth == 0:
        return
    yield arr("t", N, make(s, add(v("t"), i)))
    yield arr("t", lit(2), make(s, i, 7))
    for w in vecs(s, depth - 1, i):
        yield cat(w, base)
        yield cat(arr("t", lit(1), make(s, i, 3)), w)
        yield arr("t", N, get(w, sub(v("t"), lit(1))))
        yield arr("t", N, get(w, get(I, v("t"))))
        yield arr("t", size(w), get(w, sub(sub(size(w), lit(1)), v("t"))))
        yield where(op("lt", i, lit(1)), w, arr("t", size(w), get(w, add(v("t"), lit(1)))))
        yield fold(lit(2), w, arr("t", size(w), zipped(s, get(v("acc"), v("t")), make(s, v("k"), 2), STEP)), "k", "acc")
        yield get(arr("o", lit(2), arr("t", N, zipped(s, get(w, v("t")), make(s, v("o"), 1), ADD))), i)


def records(s, depth, i):
    yield make(s, lit(0))
    yield make(s, i, 5)
    if depth == 0:
        return
    for w in vecs(s, depth - 1, i):
        for e in (lit(1), i, add(i, lit(1)), get(I, i), sub(size(w), lit(1))):
            yield get(w, e)
        yield red(ident(s, ZERO), zipped(s, X, Y, ADD), w)
        yield red(ident(s, ZERO), zipped(s, X, Y, LAST), w)
        yield fold(size(w), make(s, lit(1)), zipped(s, v("acc"), get(w, v("k")), STEP), "k", "acc")
        yield fold(lit(2), make(s, i), zipped(s, get(w, v("k")), v("acc"), STEP), "k", "acc")
    for r in records(s, depth - 1, i):
        yield where(op("le", i, lit(0)), r, make(s, lit(1), 4))
        yield fold(lit(2), r, v("acc"), "k", "acc")
        yield zipped(s, r, r, STEP)


def sources(s, i):
    w = arr("t", N, make(s, v("t")))
    for init, count, step in ((make(s, i), lit(2), STEP), (make(s, i, 6), lit(2), STEP), (make(s, i), N, STEP), (make(s, i), lit(2), ADD)):
        yield fold(count, init, zipped(s, v("acc"), get(w, v("k")), step), "k", "acc")
    yield red(ident(s, ZERO), zipped(s, X, Y, ADD), w)
    yield red(ident(s, ZERO), zipped(s, X, Y, LAST), arr("t", N, make(s, add(v("t"), i))))
    yield get(w, i)
    yield get(w, lit(0))


def uses(s, m):
    yield m
    yield fold(lit(2), m, zipped(s, v("acc2"), make(s, v("k2"), 2), STEP), "k2", "acc2")
    yield get(arr("t2", lit(2), zipped(s, m, make(s, v("t2"), 1), ADD)), lit(1))


def leaves_of(s, r):
    """(leaf shape, term) for every leaf reached by projections only."""
    if is_rec(s):
        for k, x in enumerate(s[1:]):
            yield from leaves_of(x, proj(r, k))
    else:
        yield s, r


def together(leaves):
    """One float term that depends on every leaf."""
    total = lit(0.0)
    for c, (leaf, t) in enumerate(leaves):
        kind = leaf
        while isinstance(kind, tuple):
            if kind[0] == "v":
                kind = kind[1]
                if not is_rec(kind):
                    t = get(t, lit(c % 2))
            else:
                kind = kind[1]
        x = t if kind == "f" else tofloat(t) if kind == "i" else where(t, lit(1.0), lit(0.0))
        total = add(mul(total, lit(0.5)), x)
    return total


def swap(t, old, new):
    if t == old:
        return new
    return tuple(swap(x, old, new) for x in t) if isinstance(t, tuple) else t


VA = tuple((("n", n), ("s", k)) for n, k in ((3, 2), (2, 3), (1, 2), (4, 1)))
VA0 = VA + ((("n", 3), ("s", 0)),)


def cases(tier):
    for case in all_cases(tier):
        if not lang.sizes_depend_on_indices(case[1][0]):
            yield case


def all_cases(tier):
    thorough = tier == "thorough"
    for name, s in SHAPES.items():
        main = thorough or name in ("pair", "odd", "vecs")
        # records built, returned, and their structure
        for r in records(s, 2 if main else 1, lit(1)):
            yield ("structure", (r, s, VA if thorough else VA[:1]), "structure")
        # vectors of records, returned whole
        for w in vecs(s, 2 if main and name != "vecs" else 1, lit(1)):
            yield ("structure", (w, ("v", s), VA if thorough else VA[:1]), "vectors")
        yield ("structure", (arr("o", lit(2), arr("t", N, make(s, add(v("t"), v("o"))))), ("v", ("v", s)), VA), "vectors")
        yield ("structure", (arr("o t", [S, N], make(s, sub(v("t"), v("o")))), ("v", ("v", s)), VA), "vectors")
        # fields inside comprehensions
        va = VA0 if thorough else VA0[:1] + VA0[-1:]
        for r in records(s, 2 if main else 1, v("i")):
            leaves = [(leaf, t if not (isinstance(leaf, tuple) and is_rec(leaf[1])) else proj(get(t, v("i")), 0))
                      for leaf, t in leaves_of(s, r)]
            for leaf, t in leaves:
                yield ("prog", (arr("i", S, t), SPEC, va, ("numpy",), "var"), "fields")
            # every field of one record in one body
            yield ("prog", (arr("i", S, together(leaves)), SPEC, va, ("numpy",), "var"), "together")
        # both fields of an element of a vector of records whose elements are loops over records
        for r in records(s, 1, v("i")):
            w = arr("i", S, r)
            leaves = [(leaf, t if not (isinstance(leaf, tuple) and is_rec(leaf[1])) else proj(get(t, v("j")), 0))
                      for leaf, t in leaves_of(s, get(w, v("j")))]
            yield ("prog", (let("w", w, arr("j", S, together([(x, swap(t, w, v("w"))) for x, t in leaves]))), SPEC, va,
                            ("numpy",), "var"), "together")
            yield ("prog", (arr("j", S, together(leaves)), SPEC, va, ("numpy",), "var"), "together")
        for w in vecs(s, 2 if thorough else 1, v("i")):
            yield ("prog", (arr("i", S, size(w)), SPEC, VA0, ("numpy",), "var"), "sizes")
            yield ("structure", (arr("i", S, get(w, v("i"))), ("v", s), VA if thorough else VA[:1]), "mapped")
            yield ("structure", (arr("i", S, w), ("v", ("v", s)), VA if thorough else VA[:1]), "mapped")
    # records assembled from the fields of two others, which differ in little
    for name in ("pair", "list", "left", "vecs") if not thorough else SHAPES:
        s = SHAPES[name]
        n = len(s) - 1
        if n < 2:
            continue
        for i in (lit(1), v("i")):
            src = list(sources(s, i))
            for (a, r1), (b, r2) in itertools.permutations(enumerate(src), 2):
                if not thorough and name != "pair" and (a + b) % 3:
                    continue
                for pick in itertools.product((0, 1), repeat=n):
                    if len(set(pick)) < 2:
                        continue
                    m = rec(s[0], *[proj((r1, r2)[c], k) for k, c in enumerate(pick)])
                    for t in uses(s, m):
                        leaves = list(leaves_of(s, t))
                        if i == lit(1):
                            yield ("structure", (t, s, VA[:2] if thorough else VA[:1]), "assembled")
                        elif not any(isinstance(x, tuple) and is_rec(x[1]) for x, _ in leaves):
                            yield ("prog", (arr("i", S, together(leaves)), SPEC, VA0[:1] + VA0[-1:], ("numpy",), "var"), "assembled")
    # the same record kinds cross-assembled: fields swapped between steps
    for k1 in KINDS[:5]:
        s = (k1, "f", "f") if k1 != "P" else ("P", "f", "f")
        acc = v("acc")
        a, b = proj(acc, 0), proj(acc, 1)
        for x, y in itertools.product((a, b, add(a, b), get(F, v("k")), mul(a, lit(2.0))), repeat=2):
            yield ("structure", (fold(N, make(s, lit(0)), rec(k1, x, y), "k", "acc"), s, VA), "swaps")
            yield ("prog", (arr("i", S, proj(fold(N, make(s, v("i")), rec(k1, x, y), "k", "acc"), 1)), SPEC, VA0,
                            ("numpy",), "var"), "swaps")


run_prog = runners.run_prog


def run_structure(ctx, term, shape, valuations):
    """The host structure has the shape; every leaf evaluates to the model's field."""
    for dims in valuations:
        ins = runners.inputs_for(SPEC, dict(dims))
        try:
            want = runners.model_value(term, ins)
        except lang.Unspecified:
            ctx.outside += 1
            continue
        ctx.states += 1
        from ein import wrap

        got = real.build(term, {}, [wrap(a) for a in ins])
        what = compare(ctx, got, want, shape, "result")
        if what is not None:
            return f"{what}; dims {dict(dims)}"
    ctx.traces += 1
    return None


KEYS = {"dict": real.DICT_KEYS, "odd": real.ODD_KEYS}


def fields(got, shape, where_):
    """The fields of a host record, by their own name or position; or a description."""
    kind, n = shape[0], len(shape) - 1
    if kind in ("tuple", "list"):
        if not isinstance(got, (tuple, list)) or len(got) != n:
            return f"{where_}: {type(got).__name__} instead of {n} positional fields"
        return list(got)
    if kind in KEYS:
        if not isinstance(got, dict) or list(got) != list(KEYS[kind][:n]):
            return f"{where_}: {list(got) if isinstance(got, dict) else type(got)} instead of a dictionary of {KEYS[kind][:n]}"
        return [got[k] for k in KEYS[kind][:n]]
    cls = real.DATACLASSES[kind]
    if type(got) is not cls:
        return f"{where_}: {type(got).__name__} instead of {cls.__name__}"
    return [getattr(got, f.name) for f in dataclasses.fields(cls)]


def transpose(value, rank, shape):
    """A vector (of rank) of records as the arrays of its leaves."""
    if is_rec(shape):
        for k, x in enumerate(shape[1:]):
            yield from transpose(mapr(value, rank, lambda y: y[k] if y is not lang.BOT else lang.BOT), rank, x)
    elif isinstance(shape, tuple):
        yield from transpose(value, rank + 1, shape[1])
    else:
        yield shape, value


def mapr(value, rank, f):
    if rank == 0:
        return f(value)
    if value.items:
        return lang.RVec([mapr(x, rank - 1, f) for x in value.items])
    return lang.RVec([], mapr(value.proto, rank - 1, f))


def has_rec(shape):
    return is_rec(shape) or isinstance(shape, tuple) and has_rec(shape[1])


def arrays(got, shape, want):
    """The leaves of a host structure as Ein arrays: fields of vectors of records are read at every position."""
    if is_rec(shape):
        fs = fields(got, shape, "element")
        if isinstance(fs, str):
            raise AssertionError(fs)
        for k, (g, x) in enumerate(zip(fs, shape[1:])):
            yield from arrays(g, x, want[k])
    elif isinstance(shape, tuple) and has_rec(shape[1]):
        for j in range(count(shape[1])):
            yield real.array(lambda t, j=j: list(arrays(got[t], shape[1], want.proto))[j],
                             size=(len(want.items),))
    else:
        yield got


def count(shape):
    if is_rec(shape):
        return sum(map(count, shape[1:]))
    return count(shape[1]) if isinstance(shape, tuple) else 1


def compare(ctx, got, want, shape, where_):
    if is_rec(shape):
        fs = fields(got, shape, where_)
        if isinstance(fs, str):
            return fs
        for k, (g, x) in enumerate(zip(fs, shape[1:])):
            what = compare(ctx, g, want[k], x, f"{where_}.{k}")
            if what is not None:
                return what
        return None
    wants = list(transpose(want, 0, shape))
    for j, (kind, w) in enumerate(wants):
        ctx.transitions += 1
        try:
            g = list(arrays(got, shape, want))[j].eval()
        except Exception as e:
            return f"{where_} (array {j}): raised {type(e).__name__}: {str(e)[:300]}"
        what = execm.mismatch(g, w, kind)
        if what is not None:
            return f"{where_} (array {j}): {what}"
    # and an element read from it is a record again
    if isinstance(shape, tuple) and is_rec(shape[1]) and want.items:
        return compare(ctx, got[len(want.items) - 1], want.items[-1], shape[1], where_ + "[-1]")
    return None
