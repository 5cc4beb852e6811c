"""Families of folds and reductions."""
import itertools

from . import fam as fam_
from . import gen, lang
from .fam import (Pool, _selections, _wrap, add, all_vals, arr, cat, fold, get, inp, lit, mn, mul, mx, op, proj,
                  rec, red, size, sub, tofloat, v, vals, where)
from .gen import MF, VB, VF, VI, Grammar

# --------------------------------------------------------------------------------------------- folds


def steps_scalar(tier):
    """All float steps up to a cost over the accumulator, the counter and the data it reads."""
    spec = (("f", "n"), ("i", "n"))
    g = Grammar([VF, VI], {"f": [2.0], "i": [1]},
                gen.F2 + [("add", ("i", "i"), "i"), ("float", ("i",), "f")], vectors=[VF, VI])
    va = all_vals("n", (0, 1, 2, 3))
    top = 6 if tier == "thorough" else 5
    for body in g.upto("f", top, ("i", "f")):
        for init in (lit(0.0), lit(1.5)):
            yield fold(size(inp(0)), init, body, "x0", "x1"), spec, va
    # counts that are not the size of what is read
    for body in g.upto("f", top - 1, ("i", "f")):
        for n in (lit(0), lit(2), lit(-1), sub(size(inp(0)), lit(1)), add(size(inp(0)), lit(1)), get(inp(1), lit(0))):
            yield fold(n, lit(0.0), body, "x0", "x1"), spec, va


def steps_kinds(tier):
    """Integer and boolean accumulators."""
    spec = (("i", "n"), ("b", "n"))
    g = Grammar([VI, VB], {"i": [2], "b": [True]},
                gen.I2 + [("mod", ("i", "i"), "i"), ("neg", ("i",), "i"), ("lt", ("i", "i"), "b"), ("eq", ("i", "i"), "b"),
                          ("and", ("b", "b"), "b"), ("or", ("b", "b"), "b"), ("not", ("b",), "b")], vectors=[VI, VB],
                where=["i"])
    va = all_vals("n", (0, 1, 3))
    top = 5 if tier == "thorough" else 4
    for body in g.upto("i", top, ("i", "i")):
        for init in (lit(0), lit(3)):
            yield fold(size(inp(0)), init, body, "x0", "x1"), spec, va
    for body in g.upto("b", top + 1, ("i", "b")):
        for init in (lit(False), lit(True)):
            yield fold(size(inp(1)), init, body, "x0", "x1"), spec, va


def steps_batched(tier):
    """Folds in a comprehension: the step, the initial value and the count may or may not mention its index."""
    spec = (("f", "n"), ("f", "s"), ("f", "sn"), ("i", "s"))
    a, b, m, q = (inp(k) for k in range(4))
    i, k, acc = v("i"), v("k"), v("acc")
    leaf = [get(a, k), get(b, i), get(m, i, k), get(m, k, i), get(a, i), lit(2.0), tofloat(k), tofloat(i),
            get(b, add(i, k)), get(b, sub(i, k)), get(a, add(k, lit(1))), get(a, get(q, i)), get(b, get(q, i)),
            get(m, get(q, i), k), get(m, i, get(q, k)), acc]
    inits = [lit(0.0), lit(1.0), get(b, i), get(a, lit(0)), get(m, i, lit(0))]
    counts = [size(a), size(b), lit(2), size(m, 1)]
    va = vals("ns", (3, 2), (2, 3), (3, 3), (1, 2), (0, 2), (2, 0))
    steps = []
    for x in leaf:
        for o in ("add", "max", "min", "mul", "sub"):
            steps.append(op(o, acc, x))
            steps.append(op(o, x, acc))
        steps.append(x)
    for x, y in itertools.combinations(leaf, 2):
        steps.append(add(acc, mul(x, y)))
        if tier == "thorough":
            steps += [add(acc, sub(x, y)), add(mul(acc, x), y), mx(acc, add(x, y)), add(mul(x, y), acc),
                      where(op("lt", x, y), acc, add(acc, x))]
        else:
            steps += [add(mul(acc, x), y), mx(mul(x, y), acc)]
    seen = set()
    for st in steps:
        if st in seen:
            continue
        seen.add(st)
        for init in inits:
            if init in (inits[3], inits[4]) and st[0] == "op" and st[2] != acc and tier == "quick":
                continue
            for c in counts if (tier == "thorough" or init == lit(0.0)) else counts[:1]:
                yield arr("i", size(b), fold(c, init, st)), spec, va


PQRX = vals("pqrx", (2, 3, 4, 2), (3, 3, 3, 3), (1, 2, 1, 2), (2, 0, 3, 1), (0, 2, 2, 2))


def contractions(tier):
    """sum over k (and l) of products of up to three reads at ordered selections of the indices."""
    names = ("i", "j", "k")
    for sel1 in _selections(names):
        for sel2 in _selections(names):
            for free in (("i",), ("i", "j")) if tier == "thorough" else (("i", "j"),):
                for form in range(6):
                    if form > 2 and tier == "quick" and (len(sel1) < 2 or len(sel2) < 1):
                        continue
                    pool = Pool()
                    x, y = pool.read(sel1, 0), pool.read(sel2, 1)
                    n = pool.extent("k")
                    summands = [mul(x, y), sub(mul(x, y), x), op("neg", mul(y, x)), mul(x, add(y, lit(1.0))),
                                add(mul(x, lit(2.0)), mul(lit(3.0), y)), sub(x, op("neg", mul(x, y)))]
                    body = fold(n, lit(0.0), add(v("acc"), summands[form]))
                    if "j" not in free:
                        body = fold(pool.extent("j"), lit(0.0), add(v("acc2"), body), "j", "acc2")
                    yield _wrap([free], pool, body), pool, PQRX


def contractions_nested(tier):
    """Sums of products with sums inside products, repeated counters and partially contracted factors."""
    sels = [s for s in _selections(("i", "j", "k"))]
    pairs = itertools.product(sels, repeat=2) if tier == "thorough" else itertools.product(sels[1:10], sels[4:])
    for s1, s2 in pairs:
        for form in range(8):
            pool = Pool()
            x, y = pool.read(s1, 0), pool.read(s2, 1)
            nj, nk = pool.extent("j"), pool.extent("k")

            def s(n, e, var, acc, init=0.0):
                return fold(n, lit(init), add(v(acc), e), var, acc)

            if form == 0:  # double sum
                e = s(nj, s(nk, mul(x, y), "k", "a1"), "j", "a2")
            elif form == 1:  # a factor outside of the inner sum
                e = s(nj, mul(y, s(nk, x, "k", "a1")), "j", "a2") if "k" not in s2 else None
            elif form == 2:  # product of sums
                e = mul(s(nk, x, "k", "a1"), s(nk, y, "k", "a2"))
                e = s(nj, e, "j", "a3")
            elif form == 3:  # not zero-initialised inside
                e = s(nj, s(nk, mul(x, y), "k", "a1", 1.0), "j", "a2")
            elif form == 4:  # difference of sums
                e = s(nj, sub(s(nk, mul(x, y), "k", "a1"), s(nk, x, "k", "a4")), "j", "a2")
            elif form == 5:  # square of a sum
                e = s(nj, mul(s(nk, mul(x, y), "k", "a1"), s(nk, mul(x, y), "k", "a1")), "j", "a2")
            elif form == 6:  # accumulates minus
                e = fold(nj, lit(0.0), sub(v("a2"), s(nk, mul(x, y), "k", "a1")), "j", "a2")
            else:  # max of sums
                e = fold(nj, lit(-100.0), mx(v("a2"), s(nk, mul(x, y), "k", "a1")), "j", "a2")
            if e is not None:
                yield _wrap([("i",)], pool, e), pool, PQRX


def contraction_algebra(tier):
    """sum over k of every sum, difference, negation and product of a few factors, some of which are sums shared
    between several of the places that mention them."""
    spec = (("f", "n"), ("f", "sn"), ("f", "nm"), ("f", "s"))
    a, y, w, b = (inp(q) for q in range(4))
    i, k, l = v("i"), v("k"), v("l")
    leaves = [get(a, k), get(y, i, k), v("S1"), v("S2")]

    def pairs(fst, snd):
        for p, q in itertools.product(fst, snd):
            yield from (add(p, q), mul(p, q), sub(p, q))

    two = list(pairs(leaves, leaves))
    two += [op("neg", e) for e in two]
    terms = leaves + [op("neg", e) for e in leaves] + two
    terms += [e for p in two for x in leaves for e in (add(p, x), mul(p, x), sub(p, x), sub(x, p))]
    if tier == "thorough":
        terms += [op("neg", e) for e in terms[len(two):]]
        terms += [e for p, q in itertools.product(two[::2], two[1::3]) for e in (mul(p, q), sub(p, q))]
    va = vals("nsm", (3, 2, 2), (2, 2, 2), (0, 2, 2), (2, 1, 0))
    s1 = fold(size(b), lit(0.0), add(v("a1"), get(b, l)), "l", "a1")
    s2 = fold(size(w, 1), lit(0.0), add(v("a2"), mul(get(w, k, l), lit(0.5))), "l", "a2")
    for e in terms:
        body = ("let", "S2", s2, add(v("acc"), e)) if _mentions(e, "S2") else add(v("acc"), e)
        t = arr("i", size(b), fold(size(a), lit(0.0), body))
        yield ("let", "S1", s1, t) if _mentions(e, "S1") else t, spec, va


def _mentions(t, name):
    return t == ("v", name) or isinstance(t, tuple) and any(_mentions(x, name) for x in t)


def contraction_shifts(tier):
    """Contractions whose reads are shifted, clipped or gathered, or whose counts differ from the axis."""
    spec = (("f", "n"), ("f", "m"), ("f", "mn"), ("i", "n"))
    a, b, w, q = (inp(k) for k in range(4))
    i, k, acc = v("i"), v("k"), v("acc")
    es = [k, add(k, lit(1)), sub(k, lit(1)), sub(sub(size(a), lit(1)), k), get(q, k), mn(k, lit(1)), mul(k, lit(2)),
          add(i, k), sub(i, k), i, lit(1), add(k, k), add(k, size(b))]
    va = vals("nm", (3, 2), (2, 3), (3, 3), (0, 2), (1, 4))
    for e1, e2 in itertools.product(es, repeat=2):
        for n in (size(a), size(b), lit(2)):
            if tier == "quick" and n == lit(2) and e1 not in es[:5]:
                continue
            yield arr("i", size(b), fold(n, lit(0.0), add(acc, mul(get(a, e1), get(b, e2))))), spec, va
        yield arr("i", size(b), fold(size(a), lit(0.0), add(acc, mul(get(w, i, e1), get(a, e2))))), spec, va
        yield arr("i", size(a), fold(size(b), lit(0.0), add(acc, mul(get(w, k, i), get(b, e2))))), spec, va
        yield arr("i", size(b), fold(size(a), lit(1.0), mx(acc, get(w, e1, e2)))), spec, va


def vector_accs(tier):
    """Vector and matrix accumulators, rebuilt at every step."""
    spec = (("f", "n"), ("f", "s"), ("f", "sn"), ("i", "n"))
    a, b, m, q = (inp(k) for k in range(4))
    i, k, t, acc = v("i"), v("k"), v("t"), v("acc")
    elems = [get(acc, t), get(acc, add(t, lit(1))), get(acc, sub(t, lit(1))), get(acc, k), get(acc, get(q, t)),
             get(acc, lit(0)), get(acc, sub(sub(size(a), lit(1)), t)), get(acc, mn(t, k)), get(acc, add(t, k))]
    others = [get(a, t), get(b, i), get(a, k), get(m, i, t), tofloat(k), lit(1.0), get(m, k, t), get(b, add(i, k))]
    inits = [a, arr("t", size(a), lit(0.0)), get(m, i), arr("t", size(a), get(b, i)), arr("t", size(a), get(m, i, t))]
    va = vals("ns", (3, 2), (2, 3), (3, 3), (1, 2), (2, 0))
    combos = list(itertools.product(elems, others))
    for e, o in combos:
        bodies = [arr("t", size(a), add(e, o)), arr("t", size(a), where(op("lt", e, o), o, e)),
                  arr("t", size(a), where(op("eq", t, k), o, e)), arr("t", size(acc), sub(o, e))]
        for body in bodies if tier == "thorough" else bodies[:3]:
            for init in inits if tier == "thorough" or e in elems[:3] else inits[:3:2]:
                yield arr("i", size(b), fold(lit(2), init, body)), spec, va
    for e, o in combos[:24]:
        for init in inits:
            for n in (size(a), size(b), lit(0), lit(-2)):
                yield arr("i", size(b), fold(n, init, arr("t", size(a), sub(o, e)))), spec, va
    # matrix accumulators: powers, relaxations
    w = inp(4)
    spec5 = spec + (("f", "nn"),)
    u, acc2 = v("u"), v("acc2")
    prod = arr("t u", [size(w, 0), size(w, 1)],
               fold(size(w, 0), lit(0.0), add(acc2, mul(get(acc, t, v("l")), get(w, v("l"), u))), "l", "acc2"))
    relax = arr("t u", [size(w, 0), size(w, 1)], mn(get(acc, t, u), add(get(acc, t, k), get(acc, k, u))))
    tr = arr("t u", [size(w, 0), size(w, 1)], sub(get(acc, u, t), get(w, t, u)))
    for body in (prod, relax, tr):
        for init in (w, arr("t u", [size(w, 0), size(w, 1)], tofloat(sub(t, u)))):
            for n in (lit(0), lit(1), lit(3), size(w)):
                yield fold(n, init, body), spec5, va
                yield arr("i", size(b), fold(n, init, body)), spec5, va
                yield arr("i", size(b), get(fold(n, init, body), i, lit(0))), spec5, va
    # growing and shrinking intermediate vectors that come back to size
    for body in (arr("t", size(a), get(cat(acc, a), add(t, lit(1)))), arr("t", size(a), get(cat(a, acc), add(t, k))),
                 arr("t", size(acc), get(acc, sub(size(acc), t)))):
        for init in inits:
            yield arr("i", size(b), fold(lit(3), init, body)), spec, va


def record_accs(tier):
    """Record accumulators: every field is updated from the old fields."""
    spec = (("f", "n"), ("i", "n"), ("f", "s"))
    a, q, b = (inp(k) for k in range(3))
    i, k, acc = v("i"), v("k"), v("acc")
    va = vals("ns", (3, 2), (2, 3), (0, 2), (1, 1))
    fs = [proj(acc, 0), proj(acc, 1), get(a, k), get(b, i), tofloat(k)]
    steps = [x for x in fs] + [add(x, y) for x, y in itertools.product(fs, repeat=2)] + \
            [where(op("lt", x, y), x, y) for x, y in itertools.combinations(fs, 2)]
    pairs = itertools.product(steps, repeat=2) if tier == "thorough" else itertools.product(steps[:12], steps[::3])
    for kind in ("tuple",):
        for s0, s1 in pairs:
            f = fold(size(a), rec(kind, lit(0.0), lit(1.0)), rec(kind, s0, s1))
            yield arr("i", size(b), sub(proj(f, 0), mul(lit(3.0), proj(f, 1)))), spec, va
            yield arr("i", size(b), proj(f, 0)), spec, va
            yield arr("i", size(b), proj(f, 1)), spec, va
    # mixed kinds and vectors, all record kinds
    for kind in ("tuple", "list", "dict", "P"):
        for init in (rec(kind, lit(0), a), rec(kind, get(q, i), arr("t", size(a), get(b, i))),
                     rec(kind, lit(1), arr("t", size(a), lit(0.0)))):
            for s0 in (add(proj(acc, 0), lit(1)), get(q, proj(acc, 0)), mx(proj(acc, 0), get(q, k))):
                for s1 in (proj(acc, 1), arr("t", size(a), add(get(proj(acc, 1), v("t")), tofloat(proj(acc, 0)))),
                           arr("t", size(a), where(op("eq", v("t"), proj(acc, 0)), get(b, i), get(proj(acc, 1), v("t"))))):
                    f = fold(size(a), init, rec(kind, s0, s1))
                    yield arr("i", size(b), proj(f, 0)), spec, va
                    yield arr("i", size(b), proj(f, 1)), spec, va
                    yield arr("i", size(b), get(proj(f, 1), proj(f, 0))), spec, va


def folds_in_folds(tier):
    """Nested folds whose counts, initial values and steps use the outer counter and accumulator."""
    spec = (("f", "n"), ("f", "s"), ("f", "sn"))
    a, b, m = (inp(k) for k in range(3))
    i, k, l, a1, a2 = v("i"), v("k"), v("l"), v("a1"), v("a2")
    va = vals("ns", (3, 2), (2, 3), (0, 2), (1, 1))
    leaves = [get(a, k), get(a, l), get(b, i), get(m, i, l), get(m, k, l), a1, tofloat(add(k, l)), get(a, add(k, l))]
    inner_inits = [lit(0.0), a1, get(b, i), get(a, k), lit(1.0)]
    counts = [size(a), k, add(k, lit(1)), sub(lit(2), k), lit(2)]
    outer = [lambda e: e, lambda e: add(a1, e), lambda e: mx(e, a1), lambda e: sub(e, a1)]
    for n, init, x, f in itertools.product(counts, inner_inits, leaves, outer):
        for st in (add(a2, x), mul(x, a2)) if tier == "thorough" else (add(a2, x),):
            e = f(fold(n, init, st, "l", "a2"))
            yield arr("i", size(b), fold(size(a), lit(0.5), e, "k", "a1")), spec, va
    for n, x in itertools.product(counts, leaves):
        yield arr("i", size(b), fold(lit(3), lit(0.0), add(a1, fold(n, lit(0.0), add(a2, mul(x, get(a, l))), "l", "a2")),
                                     "k", "a1")), spec, va


def run_time_counts(tier):
    """Counts read from data, possibly negative; accumulators used as indices and counts."""
    spec = (("f", "n"), ("i", "n"), ("i", "s"))
    a, q, c = (inp(k) for k in range(3))
    i, k, acc = v("i"), v("k"), v("acc")
    va = vals("ns", (3, 2), (2, 3), (1, 1), (4, 2))
    counts = [get(q, lit(j)) for j in range(4)] + [sub(lit(1), size(a)), add(get(q, lit(0)), get(q, lit(1))),
                                                   mn(get(q, lit(2)), lit(3)), fold(size(q), lit(0), mx(acc, get(q, k)))]
    for n in counts:
        for st, init in ((add(acc, get(a, k)), lit(0.0)), (mx(acc, get(a, k)), lit(0.0)),
                         (add(acc, mul(get(a, k), get(a, k))), lit(0.0)),
                         (get(a, k), lit(9.0)), (get(q, acc), lit(0)), (add(acc, k), lit(0)),
                         (mul(acc, lit(2.0)), get(a, lit(0)))):
            yield fold(n, init, st), spec, va
            yield arr("i", size(c), fold(n, init, st)), spec, va
    for st in (get(q, acc), get(q, add(acc, k)), add(acc, get(q, k)), mx(acc, get(q, add(i, k))), get(q, sub(acc, i)),
               get(q, add(i, acc)), add(get(c, i), acc), where(op("lt", acc, k), get(q, acc), acc)):
        for init in (lit(0), i, get(c, i)):
            yield arr("i", size(c), fold(lit(3), init, st)), spec, va
            yield arr("i", size(c), get(a, fold(lit(3), init, st))), spec, va
            yield arr("i", size(c), fold(fold(lit(2), lit(0), add(acc, get(q, k))), init, st)), spec, va


def resized_accs(tier):
    """Vector accumulators whose extent changes from step to step, and what is read of them."""
    spec = (("f", "n"), ("f", "s"), ("f", "sn"))
    a, b, m = (inp(k) for k in range(3))
    i, k, t, acc = v("i"), v("k"), v("t"), v("acc")
    va = vals("ns", (3, 2), (2, 3), (3, 3), (1, 2), (2, 1))
    grow = [cat(acc, b), cat(b, acc), cat(acc, acc), arr("t", add(size(acc), lit(1)), get(acc, sub(t, lit(1)))),
            cat(acc, arr("t", lit(1), tofloat(k))), arr("t", mul(size(acc), lit(2)), mul(get(acc, t), get(a, lit(0)))),
            arr("t", mx(sub(size(acc), lit(1)), lit(1)), get(acc, add(t, lit(1)))),
            arr("t", size(b), get(acc, t)), arr("t", size(b), get(acc, mn(t, lit(1)))), b, cat(acc, arr("t", size(acc), get(a, t))),
            arr("t", size(a), add(get(acc, t), get(a, t))), arr("t", size(acc), add(get(acc, t), get(a, t))),
            arr("t", k, get(acc, t)), arr("t", add(k, lit(1)), add(get(acc, t), lit(1.0)))]
    inits = [a, b, arr("t", lit(1), lit(2.0)), arr("t", size(a), mul(get(a, t), lit(2.0))), get(m, lit(0))]
    counts = [lit(0), lit(1), lit(2), size(b)]
    for g, init, n in itertools.product(grow, inits, counts):
        f = fold(n, init, g)
        yield f, spec, va
        yield arr("i", size(a), get(f, i)), spec, va
        yield arr("i", size(f), get(a, i)), spec, va
        yield arr("i", size(f), mul(get(f, i), get(a, i))), spec, va
        if n == lit(2):
            yield size(f), spec, va
            yield arr("i", size(init), sub(get(f, i), get(init, i))), spec, va
            yield arr("i", size(a), mn(get(f, add(i, lit(1))), get(a, i))), spec, va
            yield fold(size(a), lit(0.0), add(v("s"), mul(get(f, v("l")), get(a, v("l")))), "l", "s"), spec, va
            yield fold(size(f), lit(0.0), add(v("s"), mul(get(f, v("l")), get(a, v("l")))), "l", "s"), spec, va
            yield fold(size(a), lit(0.0), mx(v("s"), get(f, v("l"))), "l", "s"), spec, va
    # in a comprehension
    for g in [cat(acc, arr("t", lit(1), get(b, i))), arr("t", add(size(acc), lit(1)), add(get(acc, t), get(b, i))),
              arr("t", size(b), add(get(acc, t), get(b, i)))] + grow[:4]:
        for init in inits + [get(m, i), arr("t", size(a), get(b, i))]:
            for n in counts[1:3]:
                f = fold(n, init, g)
                yield arr("i", size(b), get(f, i)), spec, va
                yield arr("i", size(b), get(f, add(i, lit(1)))), spec, va
                yield arr("i j", [size(b), size(a)], get(f, v("j"))), spec, va
    # the step reads the accumulator along an index of another extent
    for n in (lit(1), lit(2), lit(3)):
        for inner in (fold(size(acc), lit(0.0), add(v("s"), get(acc, v("l"))), "l", "s"),
                      fold(size(a), lit(0.0), add(v("s"), get(acc, v("l"))), "l", "s"),
                      fold(size(a), lit(0.0), add(v("s"), mul(get(acc, v("l")), get(a, v("l")))), "l", "s"),
                      fold(size(acc), lit(0.0), add(v("s"), mul(get(acc, v("l")), get(a, v("l")))), "l", "s")):
            for init in inits:
                yield fold(n, init, cat(acc, arr("t", lit(1), inner))), spec, va


FOLD_FAMILIES = {"contraction-algebra": contraction_algebra, "resized": resized_accs, "steps": steps_scalar, "kinds": steps_kinds, "batched": steps_batched, "contractions": contractions,
                 "nested-contractions": contractions_nested, "shifted-contractions": contraction_shifts,
                 "vectors": vector_accs, "records": record_accs, "folds-in-folds": folds_in_folds,
                 "run-time": run_time_counts}


# ---------------------------------------------------------------------------------------- reductions

X, Y = v("rx"), v("ry")
P0, P1, P2, P3 = (lambda r: proj(r, 0)), (lambda r: proj(r, 1)), (lambda r: proj(r, 2)), (lambda r: proj(r, 3))
BIG = 2**40


def scalar_monoids():
    """name -> (kind, identity, combination of X and Y)"""
    return {
        "fadd": ("f", lit(0.0), add(X, Y)), "fmul": ("f", lit(1.0), mul(X, Y)),
        "fmin": ("f", lit(float(BIG)), mn(X, Y)), "fmax": ("f", lit(-float(BIG)), mx(X, Y)),
        "iadd": ("i", lit(0), add(X, Y)), "imax": ("i", lit(-BIG), mx(X, Y)), "imin": ("i", lit(BIG), mn(Y, X)),
        "first": ("i", lit(0), where(op("eq", X, lit(0)), Y, X)),
        "last": ("i", lit(0), where(op("eq", Y, lit(0)), X, Y)),
        "lastf": ("f", lit(0.0), where(op("eq", Y, lit(0.0)), X, Y)),
        "and": ("b", lit(True), op("and", X, Y)), "or": ("b", lit(False), op("or", X, Y)),
        "shifted": ("i", lit(5), sub(add(X, Y), lit(5))),
        "mod": ("i", lit(0), op("mod", add(X, Y), lit(7))) if False else ("i", lit(0), add(Y, X)),
    }


def record_monoids():
    """name -> (element of (float read, int read), identity, combination, arity)"""
    affine = rec("tuple", mul(P0(X), P0(Y)), add(mul(P1(X), P0(Y)), P1(Y)))
    mat = rec("tuple", add(mul(P0(X), P0(Y)), mul(P1(X), P2(Y))), add(mul(P0(X), P1(Y)), mul(P1(X), P3(Y))),
              add(mul(P2(X), P0(Y)), mul(P3(X), P2(Y))), add(mul(P2(X), P1(Y)), mul(P3(X), P3(Y))))
    best = op("le", P0(X), P0(Y))
    am = rec("tuple", where(best, P0(X), P0(Y)), where(best, P1(X), P1(Y)))
    stats = rec("dict", add(P0(X), P0(Y)), add(P1(X), P1(Y)), mx(P2(X), P2(Y)))
    nested = rec("tuple", rec("P", add(P0(P0(X)), P0(P0(Y))), mn(P1(P0(X)), P1(P0(Y)))), where(op("eq", P1(Y), lit(0)), P1(X), P1(Y)))
    return {
        "affine": (lambda f, i: rec("tuple", i, add(i, lit(1))), rec("tuple", lit(1), lit(0)), affine, (0, 1)),
        "mat": (lambda f, i: rec("tuple", i, lit(1), add(i, lit(1)), op("mod", i, lit(2))),
                rec("tuple", lit(1), lit(0), lit(0), lit(1)), mat, (0, 1, 2, 3)),
        "argmin": (lambda f, i: rec("tuple", f, i), rec("tuple", lit(float(BIG)), lit(0)), am, (0, 1)),
        "stats": (lambda f, i: rec("dict", f, lit(1), i), rec("dict", lit(0.0), lit(0), lit(-BIG)), stats, (0, 1, 2)),
        "nested": (lambda f, i: rec("tuple", rec("P", f, mul(f, lit(2.0))), i),
                   rec("tuple", rec("P", lit(0.0), lit(float(BIG))), lit(0)), nested, ((0, 0), (0, 1), 1)),
    }


def path(r, p):
    for k in p if isinstance(p, tuple) else (p,):
        r = proj(r, k)
    return r


def _lengths(tier, small=False):
    if tier == "thorough":
        return tuple(range(0, 20)) + ((31, 32, 33) if not small else ())
    return tuple(range(0, 10)) if not small else (0, 1, 2, 3, 4, 5, 7)


def _va(ns, rest, extents):
    return tuple((("n", n),) + tuple(zip(rest, e)) for n in ns for e in extents)


RED_SPEC = (("f", "n"), ("i", "n"), ("b", "n"), ("f", "sn"), ("i", "sn"), ("b", "sn"), ("f", "s"), ("i", "s"))
V1 = {"f": inp(0), "i": inp(1), "b": inp(2)}
V2 = {"f": inp(3), "i": inp(4), "b": inp(5)}


def reduce_scalars(tier):
    """Every scalar monoid, at every length, alone and in every surrounding."""
    va = _va(_lengths(tier), "s", [(2,)])
    i, t, k = v("i"), v("t"), v("k")
    s = size(inp(6))
    for name, (kind, ident, cmb) in scalar_monoids().items():
        a, m = V1[kind], V2[kind]
        n = size(a)
        yield red(ident, cmb, a), RED_SPEC, va
        yield arr("i", s, red(ident, cmb, a)), RED_SPEC, va
        yield arr("i", s, red(ident, cmb, get(m, i))), RED_SPEC, va
        yield arr("i", s, red(ident, cmb, arr("t", n, get(m, i, t)))), RED_SPEC, va
        yield arr("i", s, red(ident, cmb, arr("t", n, get(a, add(t, i))))), RED_SPEC, va
        yield arr("i j", [s, lit(3)], red(ident, cmb, arr("t", n, get(a, sub(t, v("j")))))), RED_SPEC, va
        yield arr("i j", [s, lit(3)], red(ident, cmb, arr("t", n, get(m, i, sub(t, v("j")))))), RED_SPEC, va
        yield arr("j i", [lit(3), s], red(ident, cmb, arr("t", n, get(m, i, add(t, v("j")))))), RED_SPEC, va
        yield arr("t", n, red(ident, cmb, arr("i", s, get(m, i, t)))), RED_SPEC, va
        yield red(ident, cmb, arr("i", s, red(ident, cmb, get(m, i)))), RED_SPEC, va
        yield red(ident, cmb, arr("t", n, red(ident, cmb, arr("i", s, get(m, i, t)), "px", "py")
                                  if False else red(ident, cmb, arr("i", s, get(m, i, t))))), RED_SPEC, va
        yield red(ident, cmb, cat(a, get(m, lit(1)))), RED_SPEC, va
        yield arr("i", s, red(ident, cmb, cat(get(m, i), a))), RED_SPEC, va
        yield fold(s, ident, _subst2(cmb, v("acc"), red(ident, cmb, get(m, k)))), RED_SPEC, va
        yield fold(s, ident, _subst2(cmb, v("acc"), red(ident, cmb, arr("t", n, get(a, add(t, k)))))), RED_SPEC, va
        yield arr("i", s, fold(lit(2), ident, _subst2(cmb, v("acc"), red(ident, cmb, arr("t", n, get(m, i, add(t, k))))))), RED_SPEC, va
        # over the accumulator
        acc = v("acc")
        yield fold(lit(2), a, arr("t", n, _subst2(cmb, get(acc, t), red(ident, cmb, acc)))), RED_SPEC, va[:40]
        yield arr("i", s, get(fold(lit(2), get(m, i), arr("t", n, _subst2(cmb, red(ident, cmb, acc), get(acc, t)))), lit(0))), RED_SPEC, va[:40]
        # prefixes
        yield arr("j", n, red(ident, cmb, arr("t", n, where(op("le", t, v("j")), get(a, t), ident)))), RED_SPEC, va[:12]
        # two reductions, and a reduction of part of the vector
        yield _subst2(cmb, red(ident, cmb, a), red(ident, cmb, get(m, lit(0)))), RED_SPEC, va
        yield red(ident, cmb, arr("t", mx(sub(n, lit(1)), lit(0)), get(a, add(t, lit(1))))), RED_SPEC, va
    # every ordered pair of monoids of a kind in one body
    ms = scalar_monoids()
    for n1, n2 in itertools.permutations(ms, 2):
        (k1, i1, c1), (k2, i2, c2) = ms[n1], ms[n2]
        if k1 == k2:
            yield (arr("i", s, op("and" if k1 == "b" else "sub", red(i1, c1, get(V2[k1], i)), red(i2, c2, V1[k1]))),
                   RED_SPEC, va[:6])


def _subst2(t, x, y):
    if t == X:
        return x
    if t == Y:
        return y
    if isinstance(t, tuple):
        return tuple(_subst2(u, x, y) for u in t)
    return t


def reduce_dependent(tier):
    """Monoids that mention outer indices, counters or accumulators."""
    i, t, k, acc = v("i"), v("t"), v("k"), v("acc")
    s = size(inp(6))
    va = _va(_lengths(tier), "s", [(2,), (3,)] if tier == "thorough" else [(2,)])
    cs = [get(inp(7), i), i, get(inp(7), lit(0)), get(inp(7), sub(lit(1), i)), add(get(inp(7), i), i)]
    vecs = [inp(1), get(inp(4), i), arr("t", size(inp(1)), add(get(inp(1), t), i)), arr("t", size(inp(1)), t),
            arr("t", size(inp(1)), get(inp(7), add(t, i)))]
    for c in cs:
        for vec in vecs:
            yield arr("i", s, red(op("neg", c), add(add(X, Y), c), vec)), RED_SPEC, va
            yield arr("i j", [s, lit(2)], red(sub(v("j"), c), add(add(X, Y), sub(c, v("j"))), vec)), RED_SPEC, va[:8]
            yield arr("j i", [lit(2), s], red(sub(v("j"), c), add(add(X, Y), sub(c, v("j"))), vec)), RED_SPEC, va[:8]
            yield arr("i", s, fold(lit(2), lit(1), add(acc, red(sub(k, c), add(add(X, Y), sub(c, k)), vec)))), RED_SPEC, va[:8]
            yield arr("i", s, fold(lit(2), c, red(op("neg", acc), add(add(X, acc), Y), vec))), RED_SPEC, va[:8]
        # only the identity, or only the combination mentions the index (of the terms; they stay a monoid)
        yield arr("i", s, red(sub(c, c), add(X, Y), inp(1))), RED_SPEC, va
        yield arr("i", s, red(lit(0), add(add(X, Y), sub(c, c)), inp(1))), RED_SPEC, va
        yield arr("i", s, red(lit(0), add(X, Y), arr("t", size(inp(1)), sub(add(get(inp(1), t), c), c)))), RED_SPEC, va


def reduce_records(tier):
    va = _va(_lengths(tier), "s", [(2,)])
    i, t, k = v("i"), v("t"), v("k")
    s = size(inp(6))
    n = size(inp(0))
    for name, (elem, ident, cmb, outs) in record_monoids().items():
        vec1 = arr("t", n, elem(get(inp(0), t), get(inp(1), t)))
        vec2 = arr("t", n, elem(get(inp(3), i, t), get(inp(4), i, t)))
        mixed = arr("t", n, elem(get(inp(3), i, t), get(inp(1), t)))
        mixed2 = arr("t", n, elem(get(inp(0), t), get(inp(4), i, t)))
        iota = arr("t", n, elem(tofloat(t), op("mod", t, lit(3))))
        for o in outs:
            for vec in (vec1, iota):
                yield path(red(ident, cmb, vec), o), RED_SPEC, va
            for vec in (vec1, vec2, mixed, mixed2):
                yield arr("i", s, path(red(ident, cmb, vec), o)), RED_SPEC, va
                yield arr("j i", [lit(2), s], path(red(ident, cmb, vec), o)), RED_SPEC, va[:6]
            yield path(fold(s, ident, _subst2(cmb, v("acc"), red(ident, cmb, _rename(vec2, "i", "k")))), o), RED_SPEC, va[:10]
            yield path(red(ident, cmb, arr("i", s, red(ident, cmb, vec2))), o), RED_SPEC, va[:10]


def _rename(t, a, b):
    if t == ("v", a):
        return ("v", b)
    if isinstance(t, tuple):
        return tuple(_rename(u, a, b) for u in t)
    return t


def reduce_vectors(tier):
    """Vector elements: elementwise monoids, composition of maps, products of matrices."""
    i, t, u, l, acc = v("i"), v("t"), v("u"), v("l"), v("acc")
    spec = (("f", "nm"), ("i", "nm"), ("f", "snm"), ("i", "nmm"), ("f", "s"), ("i", "snm"))
    f2, i2, f3, i4, b, i3 = (inp(k) for k in range(6))
    m, n, s = size(f2, 1), size(f2, 0), size(b)
    va = tuple((("n", a), ("m", c), ("s", 2)) for a in _lengths(tier, True) for c in ((2, 3) if tier == "quick" else (1, 2, 3)))
    vadd = arr("t", m, add(get(X, t), get(Y, t)))
    vlast = arr("t", m, where(op("eq", get(Y, t), lit(0)), get(X, t), get(Y, t)))
    comp = arr("t", m, get(X, get(Y, t)))
    mm = arr("t u", [m, m], fold(m, lit(0), add(acc, mul(get(X, t, l), get(Y, l, u))), "l", "acc"))
    mplus = arr("t u", [m, m], fold(m, lit(BIG), mn(acc, add(get(X, t, l), get(Y, l, u))), "l", "acc"))
    eye = arr("t u", [m, m], where(op("eq", t, u), lit(1), lit(0)))
    eyeplus = arr("t u", [m, m], where(op("eq", t, u), lit(0), lit(2**30)))
    zeros, izeros, iota = arr("t", m, lit(0.0)), arr("t", m, lit(0)), arr("t", m, t)
    maps = arr("k", n, arr("t", m, mx(lit(0), mn(get(i2, v("k"), t), sub(m, lit(1))))))
    maps3 = arr("k", n, arr("t", m, mx(lit(0), mn(get(i3, i, v("k"), t), sub(m, lit(1))))))
    for tag, ident, cmb, plain, batched in (
            ("vadd", zeros, vadd, f2, get(f3, i)), ("vlast", izeros, vlast, i2, get(i3, i)),
            ("comp", iota, comp, maps, maps3)):
        yield red(ident, cmb, plain), spec, va
        yield arr("i", s, red(ident, cmb, plain)), spec, va
        yield arr("i", s, red(ident, cmb, batched)), spec, va
        yield arr("j i", [lit(2), s], red(ident, cmb, batched)), spec, va
        yield arr("i", s, get(red(ident, cmb, batched), i)), spec, va
        yield arr("t", m, get(red(ident, cmb, plain), t)), spec, va
        yield fold(lit(2), ident, _subst2(cmb, acc, red(ident, cmb, plain))), spec, va
    small = arr("k t u", [n, m, m], op("mod", get(i4, v("k"), t, u), lit(3)))
    for ident, cmb in ((eye, mm), (eyeplus, mplus)):
        yield red(ident, cmb, small), spec, va
        yield arr("i", lit(2), red(ident, cmb, small)), spec, va
        yield (arr("i", lit(2), red(ident, cmb, arr("k t u", [n, m, m], op("mod", add(i, get(i4, v("k"), t, u)), lit(3))))),
               spec, va)
        yield arr("i j", [m, lit(2)], get(red(ident, cmb, small), v("j"), i)), spec, va
    # columns: the reduced axis is not the outermost of the stored array
    yield red(arr("t", n, lit(0.0)), arr("t", n, add(get(X, t), get(Y, t))), arr("k t", [m, n], get(f2, t, v("k")))), spec, va
    # records with a vector
    for kind in ("tuple", "P"):
        ident = rec(kind, lit(0), zeros)
        cmb = rec(kind, add(P0(X), P0(Y)), arr("t", m, add(get(P1(X), t), get(P1(Y), t))))
        vec = arr("k", n, rec(kind, get(i2, v("k"), lit(0)), get(f2, v("k"))))
        vecb = arr("k", n, rec(kind, get(i2, v("k"), i), get(f3, i, v("k"))))
        for o in (0, 1):
            yield proj(red(ident, cmb, vec), o), spec, va
            yield arr("i", s, proj(red(ident, cmb, vec), o)), spec, va
            yield arr("i", s, proj(red(ident, cmb, vecb), o)), spec, va
        ident2 = rec(kind, iota, lit(False))
        cmb2 = rec(kind, arr("t", m, get(P0(X), get(P0(Y), t))), op("or", P1(X), P1(Y)))
        vec2 = arr("k", n, rec(kind, get(maps, v("k")), op("lt", v("k"), lit(0))))
        for o in (0, 1):
            yield proj(red(ident2, cmb2, vec2), o), spec, va
            yield arr("i", lit(2), proj(red(ident2, cmb2, vec2), o)), spec, va


def reduce_inner(tier):
    """Combinations that themselves fold, reduce or index with their operands."""
    i, t, k, acc = v("i"), v("t"), v("k"), v("acc")
    spec = (("i", "n"), ("i", "sn"), ("i", "s"))
    a, m, c = inp(0), inp(1), inp(2)
    s, n = size(c), size(a)
    va = _va(_lengths(tier, True), "s", [(2,), (3,)])
    x1, y1 = v("px"), v("py")
    table = arr("t u", [lit(3), lit(3)], op("mod", add(v("t"), v("u")), lit(3)))
    d3 = lambda e: op("mod", e, lit(3))  # noqa: E731
    combos = [
        (lit(0), fold(lit(1), X, add(acc, Y), "k", "acc")),
        (lit(0), fold(lit(2), X, where(op("eq", k, lit(0)), add(acc, Y), acc), "k", "acc")),
        (lit(0), add(red(lit(0), add(x1, y1), arr("t", lit(2), where(op("eq", t, lit(0)), X, Y)), "px", "py"), lit(0))),
        (lit(0), get(arr("t", lit(2), add(X, Y)), lit(0))),
        (lit(0), get(cat(arr("t", lit(1), X), arr("t", lit(1), Y)), where(op("eq", Y, lit(0)), lit(0), lit(1)))),
        (lit(-50), where(op("ge", X, Y), X, Y)),
    ]
    for ident, cmb in combos:
        for vec in (a, get(m, lit(0))):
            yield red(ident, cmb, vec), spec, va
        for vec in (a, get(m, i), arr("t", n, add(get(a, t), get(c, i)))):
            yield arr("i", s, red(ident, cmb, vec)), spec, va
    for vec in (arr("t", n, d3(get(a, t))), arr("t", n, d3(t))):
        yield red(lit(0), get(table, X, Y), vec), spec, va
        yield arr("i", s, red(lit(0), get(table, Y, X), vec)), spec, va
    yield arr("i", s, red(lit(0), get(table, X, Y), arr("t", n, d3(get(m, i, t))))), spec, va


def reduce_layouts(tier):
    """Combinations whose terms put their axes in every order; terms that cancel keep them monoids."""
    i, j, t, k = v("i"), v("j"), v("t"), v("k")
    spec = (("f", "nm"), ("f", "m"), ("f", "s"), ("f", "sm"), ("f", "ms"), ("f", "n"), ("f", "q"), ("f", "sq"), ("f", "sn"))
    f2, w, b, sm, ms, fn, q, sq, sn = (inp(x) for x in range(9))
    m, s, n, nq = size(w), size(b), size(fn), size(q)
    va = tuple((("n", a), ("m", c), ("s", d), ("q", 2)) for a in _lengths(tier, True) for c, d in ((2, 3), (3, 2), (1, 1)))
    terms = [get(w, t), get(b, i), get(sm, i, t), get(ms, t, i), lit(1.0), get(q, j), get(sq, i, j), get(f2, lit(0), t),
             tofloat(t), tofloat(sub(i, j))]
    zeros = arr("t", m, lit(0.0))
    vecs = [f2, arr("k t", [n, m], get(f2, k, t)), arr("k t", [n, m], mul(get(f2, k, t), get(b, i))),
            arr("k t", [n, m], add(get(fn, k), get(ms, t, i)))]
    xs, ys = get(X, t), get(Y, t)
    for e in terms:
        cmbs = [arr("t", m, sub(add(add(e, xs), ys), e)), arr("t", m, sub(add(xs, add(e, ys)), e)),
                arr("t", m, add(sub(e, e), add(xs, ys)))]
        for cmb in cmbs:
            for vec in vecs if tier == "thorough" else vecs[::2]:
                yield arr("i j", [s, nq], red(zeros, cmb, vec)), spec, va
            yield arr("j i", [nq, s], red(zeros, cmb, vecs[0])), spec, va
            yield arr("j i", [nq, s], get(red(zeros, cmb, vecs[3]), j)), spec, va
    sterms = [get(b, i), get(q, j), get(sq, i, j), tofloat(i), mul(get(b, i), get(q, j)), mul(get(q, j), get(b, i))]
    svecs = [fn, get(sn, i), arr("k", n, add(get(q, j), get(fn, k))), arr("k", n, mul(get(sq, i, j), get(fn, k))),
             arr("k", n, mul(get(q, j), get(sn, i, k)))]
    for e in sterms:
        for cmb in (sub(add(e, add(X, Y)), e), sub(add(X, add(e, Y)), e), sub(add(add(X, Y), e), e)):
            for vec in svecs:
                for init in (lit(0.0), sub(e, e)):
                    yield arr("i j", [s, nq], red(init, cmb, vec)), spec, va[:9]
                    yield arr("j i", [nq, s], red(init, cmb, vec)), spec, va[:9]
    # fields that are constant, or depend on other axes than the rest
    for e in sterms + [lit(3.0)]:
        for vec in svecs:
            cmb = rec("tuple", add(P0(X), P0(Y)), e)
            r = red(rec("tuple", lit(0.0), e), cmb, arr("k", n, rec("tuple", get(vec, k), e)))
            yield arr("i j", [s, nq], proj(r, 0)), spec, va[:9]
            yield arr("j i", [nq, s], proj(r, 1)), spec, va[:9]
    one = red(lit(2.0), lit(2.0), arr("k", n, lit(2.0)))
    yield one, spec, va
    yield arr("i", s, one), spec, va
    yield arr("i", s, red(get(b, i), get(b, i), arr("k", n, get(b, i)))), spec, va


REDUCE_FAMILIES = {"layouts": reduce_layouts, "scalars": reduce_scalars, "dependent": reduce_dependent, "records": reduce_records,
                   "vectors": reduce_vectors, "inner": reduce_inner}


# JAX wants accumulators to keep their shape, and says so when it traces them
NOT_ON_JAX = {"folds/resized"}

ALL_FAMILIES = {
    **{"comprehensions/" + k: f for k, f in fam_.COMPREHENSION_FAMILIES.items()},
    **{"indexing/" + k: f for k, f in fam_.INDEX_FAMILIES.items()},
    **{"folds/" + k: f for k, f in FOLD_FAMILIES.items()},
    **{"reductions/" + k: f for k, f in REDUCE_FAMILIES.items()},
}
