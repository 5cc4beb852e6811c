"""Families of programs: each is a finite space, enumerated completely.

A program comes as (term, spec, valuations); see runners.run_prog.
"""
import itertools

from . import gen, lang
from .gen import MF, MI, VB, VF, VI, Grammar

# ---------------------------------------------------------------------------------------------- terms


def lit(v):
    return ("lit", v)


def v(x):
    return ("v", x)


def inp(k):
    return ("in", k)


def op(o, *a):
    return ("op", o, *a)


def add(a, b):
    return ("op", "add", a, b)


def sub(a, b):
    return ("op", "sub", a, b)


def mul(a, b):
    return ("op", "mul", a, b)


def mn(a, b):
    return ("op", "min", a, b)


def mx(a, b):
    return ("op", "max", a, b)


def get(a, *i):
    return ("get", a, *i)


def arr(names, sizes, body):
    if isinstance(names, str):
        names = tuple(names.split())
    if not isinstance(sizes, list):
        sizes = [sizes]
    return ("arr", tuple(names), tuple(sizes), body, False)


def arri(names, sizes, body):
    """As arr, but the sizes are left to inference."""
    return arr(names, sizes, body)[:-1] + (True,)


def fold(count, init, body, i="k", acc="acc", infer=False):
    return ("fold", i, acc, count, init, body, infer)


def size(a, axis=0):
    return ("size", a, axis)


def where(c, a, b):
    return ("where", c, a, b)


def cat(a, b):
    return ("cat", a, b)


def red(init, body, vec, x="rx", y="ry"):
    return ("red", x, y, init, body, vec)


def rec(kind, *fields):
    return ("rec", kind, tuple(fields))


def proj(r, k):
    return ("proj", r, k)


def let(name, bind, body):
    return ("let", name, bind, body)


def tofloat(a):
    return ("op", "float", a)


def vals(names, *tuples):
    return tuple(tuple(zip(names, t)) for t in tuples)


def all_vals(names, extents):
    return tuple(tuple(zip(names, t)) for t in itertools.product(extents, repeat=len(names)))


# ------------------------------------------------------------------------------------- index families

A_B_Q = (("f", "n"), ("f", "s"), ("i", "s"))  # a target, an array giving the extent, index data


def _unary_chains(length, consts, sz):
    """All chains of +c, c+, -c, c-, min, max of a given length applied to an index."""
    steps = []
    for c in consts:
        steps += [
            lambda e, c=c: add(e, c), lambda e, c=c: add(c, e),
            lambda e, c=c: sub(e, c), lambda e, c=c: sub(c, e),
            lambda e, c=c: mn(e, c), lambda e, c=c: mx(e, c),
            lambda e, c=c: mn(c, e), lambda e, c=c: mx(c, e),
        ]
    for combo in itertools.product(steps, repeat=length):
        e = v("i")
        for s in combo:
            e = s(e)
        yield e


def idx_chains(tier):
    """a[e] with e a chain of shifts and clips of the index, against every extent."""
    va = all_vals("ns", (0, 1, 2, 3))
    consts = {1: [lit(-2), lit(-1), lit(0), lit(1), lit(2), lit(5), size(inp(0)), size(inp(1))],
              2: [lit(-2), lit(1), lit(3), size(inp(0))] if tier == "thorough" else [lit(-2), lit(1), size(inp(0))],
              3: [lit(-1), lit(2)] if tier == "thorough" else []}
    seen = set()
    for length in (1, 2, 3):
        for e in _unary_chains(length, consts[length], None):
            if e not in seen:
                seen.add(e)
                yield arr("i", size(inp(1)), get(inp(0), e)), A_B_Q, va
    if tier != "thorough":
        # length 3 with one constant per operator
        three = [(lambda e: add(e, lit(-2))), (lambda e: sub(lit(1), e)), (lambda e: sub(e, lit(1))),
                 (lambda e: mn(e, lit(1))), (lambda e: mx(lit(-1), e)), (lambda e: mx(e, lit(1)))]
        for f, g, h in itertools.product(three, repeat=3):
            yield arr("i", size(inp(1)), get(inp(0), h(g(f(v("i")))))), A_B_Q, va


def idx_grammar(tier):
    """a[e] with e any integer term up to a cost over i, j, literals, sizes and index data."""
    g = Grammar([("v", "f"), ("v", "f"), VI], {"i": [1, -2]},
                gen.I2 + [("neg", ("i",), "i"), ("mod", ("i", "i"), "i")],
                vectors=[VI], sizeof=[(VF, 0)])
    va = vals("ns", (3, 3), (2, 4), (4, 2), (1, 3), (0, 2), (3, 0), (5, 1))
    top = 5 if tier == "thorough" else 4
    for e in g.upto("i", top, ("i",)):
        yield arr("x0", size(inp(1)), get(inp(0), e)), A_B_Q, va
    va2 = vals("ns", (3, 3), (2, 4), (0, 2), (4, 1))
    for e in g.upto("i", top - 1, ("i", "i")):
        yield arr("x0 x1", [size(inp(1)), lit(2)], get(inp(0), e)), A_B_Q, va2


M_Q = (("f", "mn"), ("i", "mn"), ("i", "s"), ("f", "s"))


def _two(i, j):
    """Integer expressions over two indices."""
    q, qm = inp(2), inp(1)
    return [i, j, lit(0), add(i, lit(1)), sub(j, lit(1)), add(i, j), sub(i, j),
            sub(sub(size(inp(0), 1), lit(1)), j), get(q, i), get(q, j), get(qm, i, j), get(qm, j, i),
            mn(i, lit(1)), mx(sub(j, lit(2)), lit(0)), mul(i, lit(2)), mn(i, j), lit(-1), lit(7)]


def idx_two(tier):
    """m[e1, e2] and m[e1][e2 shifted] for all pairs of index expressions over two indices."""
    va = vals("mns", (2, 3, 4), (3, 2, 2), (3, 3, 3), (1, 2, 3))
    if tier == "thorough":
        va = va + vals("mns", (2, 3, 0), (4, 1, 2))
    es = _two(v("i"), v("j"))
    sizes = [[size(inp(3)), size(inp(0), 1)], [size(inp(0), 0), size(inp(0), 1)]]
    for e1, e2 in itertools.product(es, repeat=2):
        for ss in sizes if tier == "thorough" else sizes[:1]:
            yield arr("i j", ss, get(inp(0), e1, e2)), M_Q, va
        yield arr("j", size(inp(3)), arr("i", lit(2), get(inp(0), e1, e2))), M_Q, va
    # partially applied: a row read at an expression, then along
    for e1 in es:
        yield arr("i j", [size(inp(3)), lit(3)], get(inp(0), e1)), M_Q, va
        yield arr("i j l", [size(inp(3)), lit(3), size(inp(0), 1)], get(get(inp(0), e1), v("l"))), M_Q, va
        yield arr("l i j", [size(inp(0), 1), size(inp(3)), lit(3)], get(inp(0), e1, v("l"))), M_Q, va
        yield arr("l i j", [size(inp(0), 0), size(inp(3)), lit(3)], get(inp(0), v("l"), e1)), M_Q, va


T_Q = (("f", "pmn"), ("i", "s"), ("f", "s"))


def idx_three(tier):
    i, j, k = v("i"), v("j"), v("k")
    es = [i, j, k, add(i, lit(1)), sub(k, lit(1)), get(inp(1), j), lit(1)]
    if tier == "thorough":
        es += [add(i, k), mn(j, lit(0))]
    va = vals("pmns", (2, 3, 4, 3), (3, 3, 3, 3), (1, 2, 3, 2))
    ss = {"i": size(inp(0), 0), "j": size(inp(0), 1), "k": size(inp(2))}
    for es3 in itertools.product(es, repeat=3):
        yield arr("i j k", [ss["i"], ss["j"], ss["k"]], get(inp(0), *es3)), T_Q, va
    for p in itertools.permutations("ijk"):
        for q in itertools.permutations((i, j, k)):
            yield arr(" ".join(p), [ss[x] for x in p], get(inp(0), *q)), T_Q, va


def idx_targets(tier):
    """Compound targets, possibly depending on the index they are read at."""
    i = v("i")
    a, b, q, m = inp(0), inp(1), inp(2), inp(3)
    spec = A_B_Q + (("f", "sn"),)
    n, s = size(a), size(b)
    targets = [
        a, cat(a, b), cat(b, get(m, i)), get(m, i), get(m, get(q, i)), get(m, lit(0)),
        arr("t", n, mul(get(a, v("t")), get(b, i))),
        arr("t", n, get(a, v("t"))),
        arr("t", s, get(m, v("t"), i)),
        arr("t", n, get(m, i, v("t"))),
        arr("t", lit(3), tofloat(add(v("t"), i))),
        arr("t", lit(3), tofloat(v("t"))),
        arr("t", add(s, lit(1)), get(b, sub(v("t"), lit(1)))),
        where(op("lt", i, lit(1)), a, arr("t", n, mul(get(a, v("t")), lit(2.0)))),
        arr("t", n, fold(lit(2), get(a, v("t")), add(v("acc"), get(b, i)))),
        fold(lit(2), a, arr("t", n, add(get(v("acc"), v("t")), get(b, i)))),
        fold(lit(2), get(m, i), arr("t", n, get(v("acc"), add(v("t"), lit(1))))),
        arr("t", s, get(a, get(q, v("t")))),
    ]
    es = [i, add(i, lit(1)), sub(i, lit(1)), sub(sub(s, lit(1)), i), get(q, i), lit(0), lit(1), lit(-1),
          mn(i, lit(1)), mul(i, i), sub(n, lit(1)), mx(sub(i, lit(1)), lit(0)), mn(add(i, lit(2)), sub(n, lit(1)))]
    va = vals("ns", (3, 3), (2, 4), (4, 2), (1, 1), (3, 1))
    for t in targets:
        for e in es:
            yield arr("i", s, get(t, e)), spec, va
    # twice: both reads in one body
    for t in targets[:12] if tier == "quick" else targets:
        for e1, e2 in itertools.combinations(es[:6], 2):
            yield arr("i", s, sub(get(t, e1), get(t, e2))), spec, va


def idx_kinds(tier):
    """Integer and boolean targets, and chains of reads through index arrays."""
    spec = (("i", "n"), ("b", "n"), ("i", "sn"), ("b", "sn"), ("f", "n"))
    va = vals("ns", (3, 2), (2, 3), (4, 4), (1, 2), (0, 2), (2, 0))
    i, j = v("i"), v("j")
    q = inp(0)
    es = [i, add(i, lit(1)), sub(i, lit(1)), sub(lit(2), i), get(q, i), get(q, get(q, i)),
          mn(i, lit(1)), mx(i, lit(1)), lit(0), get(q, add(i, lit(1))), add(get(q, i), i), mul(i, lit(2)),
          get(q, sub(i, lit(2))), get(q, mn(i, get(q, lit(0))))]
    for t in (inp(0), inp(1), inp(4)):
        for e in es:
            yield arr("i", size(inp(2)), get(t, e)), spec, va
            yield arr("i", lit(3), get(t, e)), spec, va
    for t in (inp(2), inp(3)):
        for e in es:
            for e2 in (i, add(i, lit(1)), get(q, i), lit(1)):
                yield arr("i", lit(3), get(t, e, e2)), spec, va
    # reads of index data that have themselves been padded, used as indices
    for e in es[:4]:
        for e2 in es[:4]:
            yield arr("i", lit(4), get(inp(4), get(arr("j", lit(4), get(q, add(v("j"), lit(1)))), e))), spec, va
            yield arr("i j", [lit(4), lit(2)], get(inp(4), get(inp(2), j, e))), spec, va


def idx_empty(tier):
    """Reads that are not selected when the array is empty."""
    spec = (("f", "n"), ("i", "n"), ("f", "mn"))
    va = all_vals("nm", (0, 1, 2))
    i = v("i")
    a, q, m = inp(0), inp(1), inp(2)
    es = [i, lit(0), add(i, lit(1)), sub(i, lit(1)), get(q, i), mul(i, lit(2)), mn(i, lit(0)), mx(i, lit(1)),
          sub(size(a), lit(1)), sub(sub(size(a), lit(1)), i)]
    for e in es:
        yield arr("i", lit(3), where(op("gt", size(a), lit(0)), get(a, e), lit(7.0))), spec, va
        yield arr("i", lit(3), where(op("lt", v("i"), size(a)), get(a, e), lit(7.0))), spec, va
        yield arr("i", lit(3), where(op("gt", size(q), lit(0)), get(q, e), lit(7))), spec, va
        for e2 in (i, lit(0), get(q, i), add(i, lit(1))):
            yield (arr("i", lit(2), where(op("and", op("gt", size(m, 0), lit(0)), op("gt", size(m, 1), lit(0))),
                                          get(m, e, e2), lit(7.0))), spec, va)
    for e in (lit(0), lit(1), sub(size(a), lit(1)), get(q, lit(0))):
        yield where(op("gt", size(a), lit(0)), get(a, e), lit(7.0)), spec, va
        yield where(op("gt", size(q), lit(0)), get(q, e), lit(7)), spec, va


def idx_own(tier):
    """As chains, where the comprehension has the extent of the very array it reads (or of one of the same extent)."""
    va = all_vals("n", (0, 1, 2, 3, 4))
    spec = (("f", "n"), ("f", "n"), ("i", "n"))
    one = [lit(-2), lit(-1), lit(0), lit(1), lit(2), lit(5), size(inp(0)), size(inp(1)), get(inp(2), lit(0))]
    two = [lit(-1), lit(1), lit(2), size(inp(0))] if tier == "thorough" else [lit(-1), lit(2)]
    seen = set()
    for e in itertools.chain(_unary_chains(0, [], None), _unary_chains(1, one, None), _unary_chains(2, two, None)):
        if e not in seen:
            seen.add(e)
            yield arr("i", size(inp(0)), get(inp(0), e)), spec, va
            yield arri("i", size(inp(0)), op("sub", get(inp(0), e), get(inp(0), v("i")))), spec, va
            if len(seen) < 150:
                yield arr("i", size(inp(1)), get(inp(0), e)), spec, va
                yield arr("i j", [size(inp(0)), size(inp(0))], sub(get(inp(0), e), get(inp(0), v("j")))), spec, va


def _partial(t, rank, axis, e, other):
    """t read at e along an axis and at [other] along those before it."""
    return get(t, *[other] * axis, e)


def idx_extents(tier):
    """Arrays of every make and rank, read along each axis by an index whose extent is that of any axis of any array.

    Which of the extents are known to be the same decides how an index is compiled."""
    spec = (("f", "p"), ("f", "pm"), ("f", "pmn"), ("i", "m"), ("f", "mn"))
    a, m, t, q, w = (inp(k) for k in range(5))
    va = vals("pmn", (2, 3, 4), (4, 3, 2), (3, 2, 4), (3, 3, 3), (1, 2, 3))
    x, y, z, g, acc = v("x"), v("y"), v("z"), v("g"), v("acc")
    P, M, N = size(a), size(q), size(w, 1)
    targets = [
        (a, 1), (m, 2), (t, 3), (w, 2), (get(t, lit(1)), 2), (get(m, lit(0)), 1), (get(t, lit(0), lit(1)), 1),
        (get(t, get(q, lit(0))), 2),
        (arr("x", P, get(m, x)), 2), (arr("x y", [M, P], get(m, y, x)), 2), (arr("x", M, w), 3),
        (arr("x", P, get(t, x, lit(0))), 2), (arr("x", M, arr("y", N, mul(get(w, x, y), get(a, lit(0))))), 2),
        (arr("x y z", [N, P, M], get(t, y, z, x)), 3), (arr("x", add(P, lit(1)), get(t, x)), 3),
        (arr("x", lit(3), get(t, lit(0))), 3), (arr("x", P, arr("y", M, get(t, x, y))), 3),
        (cat(m, m), 2), (cat(get(t, lit(0)), w), 2), (cat(a, get(m, lit(0))) , 1),
        (where(op("lt", P, lit(3)), m, arr("x y", [P, M], get(m, x, y))), 2),
        (fold(lit(2), m, arr("x y", [P, M], add(get(acc, x, y), lit(1.0)))), 2),
        (fold(lit(2), get(t, lit(0)), arr("x y", [M, N], get(acc, x, add(y, lit(1))))), 2),
        (red(arr("x", M, lit(0.0)), arr("x", M, add(get(v("rx"), x), get(v("ry"), x))), m), 1),
        (red(arr("x y", [M, N], lit(0.0)), arr("x y", [M, N], add(get(v("rx"), x, y), get(v("ry"), x, y))), t), 2),
    ]
    extents = [P, size(m, 0), M, size(m, 1), size(t, 0), size(t, 1), size(t, 2), N, size(w, 0), size(get(t, lit(0)), 1),
               lit(3)]
    i, j = v("i"), v("j")
    es = [i, add(i, lit(1)), mn(i, lit(1)), mx(i, lit(1))]
    for k, (x_, r) in enumerate(targets):
        own = [size(x_, ax) for ax in range(r)]
        for ax in range(r):
            for n in extents + own:
                for e in es if tier == "thorough" else es[:1] + [es[1 + k % 3]]:
                    yield arr("i", n, _partial(x_, r, ax, e, lit(0))), spec, va
                if ax:
                    yield arr("j i", [lit(2), n], _partial(x_, r, ax, i, j)), spec, va
                    yield arr("i j", [n, own[0]], _partial(x_, r, ax, i, j)), spec, va[:3]
                    yield arr("i", n, get(x_, *[i] * (ax + 1))), spec, va


def idx_carried(tier):
    """Indices carried by accumulators, by operands of reductions or by shared arrays, on arrays that depend on the
    comprehension's index or not."""
    spec = (("f", "n"), ("f", "sn"), ("i", "n"), ("i", "s"), ("i", "sn"))
    a, m, q, c, qm = (inp(k) for k in range(5))
    i, j, k, acc = v("i"), v("j"), v("k"), v("acc")
    s, n = size(c), size(a)
    va = vals("ns", (3, 2), (2, 3), (4, 4), (1, 2))
    inits = [lit(0), lit(1), get(c, i), i, get(q, lit(0))]
    reads = [get(q, acc), get(qm, i, acc), get(q, add(acc, k)), get(q, add(acc, i)), get(qm, acc, i), get(qm, i, sub(acc, k)),
             get(qm, lit(0), acc), get(get(qm, i), mn(acc, lit(1))), get(arr("t", n, add(get(q, v("t")), i)), acc),
             get(arr("t", n, get(qm, i, v("t"))), add(acc, lit(1)))]
    for init in inits:
        for r in reads:
            for step in (r, add(acc, r), where(op("lt", r, lit(1)), r, acc)):
                yield arr("i", s, fold(lit(2), init, step)), spec, va
            yield arr("i", s, get(m, i, fold(lit(2), init, r))), spec, va
            yield arr("i", s, get(a, fold(lit(2), init, r))), spec, va
            yield arr("i j", [s, lit(2)], get(m, i, add(j, fold(lit(2), init, r)))), spec, va
            yield arr("j i", [lit(2), s], get(a, sub(fold(lit(2), init, r), j))), spec, va
    # float accumulators that read at carried positions
    for e in (acc, add(acc, i), sub(k, i), add(k, get(c, i)), get(c, add(i, k))):
        pos = proj(acc, 1)
        e = e if e[1] != "acc" and acc not in e else (pos if e == acc else add(pos, i))
        for target in (a, get(m, i), arr("t", n, mul(get(a, v("t")), tofloat(i)))):
            yield (arr("i", s, proj(fold(lit(3), rec("tuple", lit(0.5), get(c, i)),
                                         rec("tuple", add(proj(acc, 0), get(target, e)), get(q, add(pos, k)))), 0)), spec, va)
            yield (arr("i", s, proj(fold(lit(3), rec("tuple", lit(0.5), lit(0)),
                                         rec("tuple", sub(get(target, e), proj(acc, 0)), add(pos, get(c, i)))), 0)), spec, va)
    X_, Y_ = v("rx"), v("ry")
    for cmb in (get(arr("t", lit(3), v("t")), mx(X_, Y_)),
                get(arr("t", lit(3), add(v("t"), sub(i, i))), mx(X_, Y_)),
                get(arr("t", lit(3), arr("u", lit(3), mx(v("t"), v("u")))), X_, Y_)):
        for vec in (arr("t", n, op("mod", get(q, v("t")), lit(3))), arr("t", n, op("mod", add(i, v("t")), lit(3)))):
            yield arr("i", s, red(lit(0), cmb, vec)), spec, va
            yield arr("i", s, get(m, i, red(lit(0), cmb, vec))), spec, va
    # shared index arrays
    for bind in (arr("t", n, get(q, add(v("t"), lit(1)))), arr("t", s, get(c, v("t"))), arr("t", n, get(qm, lit(1), v("t")))):
        for target in (a, get(m, i), get(m, lit(0))):
            for e in (get(v("w"), i), get(v("w"), add(i, lit(1))), add(i, get(v("w"), lit(0))), mn(i, get(v("w"), i))):
                yield let("w", bind, arr("i", s, sub(get(target, e), get(target, get(v("w"), lit(1)))))), spec, va


INDEX_FAMILIES = {"own": idx_own, "extents": idx_extents, "carried": idx_carried, "chains": idx_chains, "grammar": idx_grammar, "two": idx_two, "three": idx_three,
                  "targets": idx_targets, "kinds": idx_kinds, "empty": idx_empty}


# -------------------------------------------------------------------------------- comprehension families

IDX = ("i", "j", "k")
DIM = {"i": "p", "j": "q", "k": "r"}


def _selections(names):
    """Ordered selections of distinct indices, of every size."""
    for r in range(len(names) + 1):
        yield from itertools.permutations(names, r)


class Pool:
    """Inputs created on demand, one per (slot, kind, dimension string)."""

    def __init__(self):
        self.spec = []

    def read(self, sel, slot=0, kind="f"):
        if not sel:
            return lit({"f": 2.5, "i": 3, "b": True}[kind]) if slot else get(self._in("x", kind, slot), lit(1))
        return get(self._in("".join(DIM[x] for x in sel), kind, slot), *[v(x) for x in sel])

    def _in(self, dims, kind, slot):
        key = (kind, dims, slot)
        if key not in self.spec:
            self.spec.append(key)
        return inp(self.spec.index(key))

    def extent(self, name):
        """The extent of an index, as the size of an input (added when there is none)."""
        for k, (_, dims, _s) in enumerate(self.spec):
            if DIM[name] in dims:
                return size(inp(k), dims.index(DIM[name]))
        return size(self._in(DIM[name], "f", 9), 0)

    def done(self):
        return tuple((k, d) for k, d, _ in self.spec)


PQR = vals("pqrx", (2, 3, 4, 2), (3, 3, 3, 2), (1, 2, 3, 2), (2, 1, 2, 2), (0, 2, 3, 2), (2, 3, 0, 2))


def _wrap(nest, pool, body):
    """Comprehensions over i, j, k in one of several nestings."""
    for group in reversed(nest):
        body = arr(" ".join(group), [pool.extent(x) for x in group], body)
    return body


NESTS = [(("i", "j", "k"),), (("k",), ("i",), ("j",)), (("j", "i"), ("k",))]


def align_pairs(tier):
    """x op y for all pairs of reads at ordered selections of three indices, in several nestings."""
    ops = ["sub", "lt"]
    for s1 in _selections(IDX):
        for s2 in _selections(IDX):
            for o in ops:
                for nest in NESTS if (tier == "thorough" or o == "sub") else NESTS[:1]:
                    pool = Pool()
                    body = op(o, pool.read(s1, 0), pool.read(s2, 1))
                    yield _wrap(nest, pool, body), pool, PQR


def align_triples(tier):
    """Three operands over two (thorough: three) indices: nested operators, selection, temporaries."""
    names = IDX if tier == "thorough" else IDX[:2]
    va = PQR[:3] if tier == "thorough" else PQR[:5]
    shapes = [lambda x, y, z: sub(sub(x, y), z), lambda x, y, z: sub(x, sub(y, z)),
              lambda x, y, z: where(op("lt", x, y), y, z),
              lambda x, y, z: mul(add(x, lit(1.0)), sub(y, op("neg", z)))]
    for s1, s2, s3 in itertools.product(list(_selections(names)), repeat=3):
        for f in shapes:
            pool = Pool()
            body = f(pool.read(s1, 0), pool.read(s2, 1), pool.read(s3, 2))
            t = _wrap([tuple(names)], pool, body)
            yield t, pool, va


def align_inner(tier):
    """An intermediate comprehension over selected indices, read back at others."""
    for s1 in _selections(IDX):
        for s2 in _selections(IDX):
            if len(s1) + len(s2) > (6 if tier == "thorough" else 4):
                continue
            for own in (1, 2):
                pool = Pool()
                inner_body = sub(pool.read(s1, 0), pool.read(s2, 1))
                # the own axes of the intermediate array
                names = ("t", "u")[:own]
                extra = [get(pool._in("x", "f", 3), v(nm)) for nm in names]
                for e in extra:
                    inner_body = mul(inner_body, e)
                inner = arr(" ".join(names), [size(pool._in("x", "f", 3), 0)] * own, inner_body)
                reads = [[v("i")], [v("j")], [lit(1)]] if own == 1 else [[v("i"), v("j")], [v("j"), v("i")], [v("k"), v("k")]]
                for r in reads:
                    yield _wrap([IDX], pool, get(inner, *r)), pool, PQR[:3]


def repeated_axes(tier):
    """Bodies that ignore indices, repeat axes or produce vectors that ignore them."""
    for nest in NESTS:
        for sel in _selections(IDX):
            for tail in range(3):
                pool = Pool()
                x = pool.read(sel, 0)
                if tail == 1:
                    x = arr("t", lit(2), x)
                elif tail == 2:
                    x = arr("t u", [lit(2), size(pool._in("x", "f", 3), 0)], add(x, get(pool._in("x", "f", 3), v("u"))))
                yield _wrap(nest, pool, x), pool, PQR
                yield _wrap(nest, pool, size_float(nest, pool, x, tail)), pool, PQR[:3]


def size_float(nest, pool, x, tail):
    return tofloat(size(x, tail - 1)) if tail else add(x, tofloat(v("j")))


def iota(tier):
    """Bodies made of indices: integer, float and boolean results, in-place candidates."""
    i, j, k = v("i"), v("j"), v("k")
    atoms = [i, j, k, lit(1), add(i, j), mul(j, lit(2)), sub(lit(1), k), op("neg", i), op("mod", i, lit(2))]
    binops = ["add", "sub", "mul", "min", "max", "lt", "le", "eq", "ne", "gt", "ge"]
    for x, y in itertools.product(atoms, repeat=2):
        for o in binops:
            pool = Pool()
            yield _wrap([IDX], pool, op(o, x, y)), pool, PQR[:2]
    for x, y in itertools.product(atoms, repeat=2):
        pool = Pool()
        yield _wrap([IDX], pool, op("sub", tofloat(x), mul(lit(0.5), tofloat(y)))), pool, PQR[:2]
        pool = Pool()
        yield (_wrap([IDX], pool, op("and", op("lt", x, y), op("or", op("eq", i, lit(1)), op("not", op("le", x, lit(2)))))),
               pool, PQR[:2])
        pool = Pool()
        yield _wrap([IDX], pool, where(op("lt", x, y), x, y)), pool, PQR[:2]


def concats(tier):
    """Concatenations of vectors over selected indices, with and without common axes, nested and read."""
    va = PQR[:3] + vals("pqrx", (2, 0, 3, 2), (2, 3, 2, 0), (1, 1, 1, 1))
    for s1 in _selections(("i", "j")):
        for s2 in _selections(("i", "j")):
            for form in range(7):
                pool = Pool()
                w = pool._in("x", "f", 3)
                n = size(w)
                a = arr("t", n, mul(get(w, v("t")), pool.read(s1, 0)))
                b = arr("t", lit(2), sub(tofloat(v("t")), pool.read(s2, 1)))
                if form == 0:
                    body = cat(a, b)
                elif form == 1:
                    body = cat(b, cat(a, b))
                elif form == 2:
                    body = get(cat(a, b), v("j"))
                elif form == 3:
                    body = arr("t", add(n, lit(2)), get(cat(b, a), sub(v("t"), lit(1))))
                elif form == 4:
                    body = cat(arr("u", lit(2), a), arr("u", lit(1), arr("t", n, pool.read(s2, 1))))
                elif form == 5:
                    body = cat(w, b)
                else:
                    body = cat(cat(a, w), a)
                yield _wrap([("i", "j")], pool, body), pool, va


def sizes(tier):
    """Sizes of vectors as values and as extents."""
    pool0 = (("f", "p"), ("f", "pq"), ("i", "q"), ("f", "qpr"))
    va = all_vals("pqr", (0, 1, 2, 3)) if tier == "thorough" else vals("pqr", (2, 3, 4), (0, 1, 2), (3, 0, 1), (1, 1, 0), (2, 2, 2))
    a, m, q, t = (inp(k) for k in range(4))
    i, j = v("i"), v("j")
    # only sizes of vectors that exist: rows of inputs are read at clamped constants
    vecs = [(a, 1), (m, 2), (t, 3), (get(m, lit(0)), 1), (get(t, lit(1)), 2), (get(t, lit(0), lit(0)), 1),
            (cat(a, a), 1), (cat(m, m), 2), (arr("u", size(q), get(q, v("u"))), 1),
            (arr("u w", [size(q), size(a)], get(m, v("w"), v("u"))), 2),
            (arr("u", size(m, 1), get(m, v("u"))), 2), (arr("u", lit(2), m), 3),
            (fold(lit(2), a, arr("u", size(a), get(v("acc"), v("u")))), 1),
            (where(op("lt", size(a), lit(2)), a, arr("u", size(a), lit(1.0))), 1)]
    for x, r in vecs:
        for ax in range(r):
            yield size(x, ax), pool0, va
            yield arr("i", size(x, ax), i), pool0, va
            yield arr("i j", [lit(2), size(x, ax)], sub(j, size(x, ax))), pool0, va
            yield arr("i", add(size(x, ax), lit(1)), get(a, sub(size(x, ax), i))), pool0, va
            yield arr("i", size(a), size(arr("u", size(x, ax), get(a, i)))), pool0, va
    for x, r in vecs:
        yield arr("i", lit(2), x), pool0, va
        if r == 2:
            yield arr("i j", [size(x, 1), size(x, 0)], get(x, j, i)), pool0, va
        if r == 3:
            yield arr("i j k", [size(x, 2), size(x, 0), size(x, 1)], get(x, j, v("k"), i)), pool0, va


def generic(tier):
    """All programs of a small language up to a cost: comprehensions, reads, folds, concatenations, selections."""
    spec = (("f", "p"), ("i", "p"), ("f", "qp"))
    g = Grammar([VF, VI, MF], {"f": [2.0], "i": [1]},
                gen.F2[:3] + gen.I2[:2] + [("float", ("i",), "f")],
                vectors=[VF, VI, MF], sizes=[size(inp(0)), lit(2)], concat=[VF],
                sizeof=[(VF, 0)])
    va = vals("pq", (3, 2), (2, 3), (1, 1), (3, 3), (0, 2))
    for ty, top in ((VF, 6), (MF, 6), (("v", MF), 5)) if tier == "quick" else ((VF, 7), (MF, 7), (("v", MF), 6)):
        for t in g.upto(ty, top):
            yield t, spec, va
    h = Grammar([VF, VI, MF, VB], {"f": [2.0], "i": [1], "b": []},
                gen.F2[:2] + gen.I2[:1] + [("lt", ("f", "f"), "b"), ("eq", ("i", "i"), "b"), ("and", ("b", "b"), "b"),
                                           ("not", ("b",), "b")],
                vectors=[VF, VI, VB], sizes=[size(inp(0)), lit(2)], where=["f", "i", VF], sizeof=[(VF, 0)])
    spec = spec + (("b", "p"),)
    for ty, top in ((VF, 7), (VB, 6), (VI, 6)) if tier == "quick" else ((VF, 8), (VB, 7), (VI, 7)):
        for t in h.upto(ty, top):
            yield t, spec, va


COMPREHENSION_FAMILIES = {"pairs": align_pairs, "triples": align_triples, "inner": align_inner,
                          "repeated": repeated_axes, "iota": iota, "concat": concats, "sizes": sizes,
                          "generic": generic}


def progs(families, tier, names=None):
    for name, f in families.items():
        if names is not None and name not in names:
            continue
        for term, spec, va in f(tier):
            yield name, term, spec.done() if isinstance(spec, Pool) else spec, va
