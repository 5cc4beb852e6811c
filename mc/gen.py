"""Exhaustive enumeration of well-typed terms of a given cost under a grammar."""
from . import lang


class Grammar:
    """All terms of a type with an exact cost.

    inputs     types of the program inputs
    lits       kind -> literals
    ops        operator names, with their argument kinds and result kind
    vectors    vector types that may be indexed / folded over
    sizes      size terms a comprehension may use (cost 0); may mention inputs only
    counts     counts a fold may use
    accs       accumulator types of folds
    monoids    (elem type, x, y, init, body) closed monoids for reductions
    """

    def __init__(self, inputs, lits, ops, vectors=(), sizes=(), counts=(), accs=(),
                 monoids=(), concat=(), where=(), sizeof=(), records=(), lets=(), ext=()):
        self.inputs = tuple(inputs)
        self.lits = lits
        self.ops = tuple(ops)
        self.vectors = tuple(vectors)
        self.sizes = tuple(sizes)
        self.counts = tuple(counts)
        self.accs = tuple(accs)
        self.monoids = tuple(monoids)
        self.concat = tuple(concat)
        self.where = tuple(where)
        self.sizeof = tuple(sizeof)
        self.records = tuple(records)
        self.lets = tuple(lets)
        self.ext = tuple(ext)
        self.memo = {}
        self.transitions = 0

    def terms(self, ty, cost, ctx=()):
        key = (ty, cost, ctx)
        got = self.memo.get(key)
        if got is None:
            got = self.memo[key] = list(self._terms(ty, cost, ctx))
            self.transitions += len(got)
        return got

    def upto(self, ty, cost, ctx=()):
        for c in range(1, cost + 1):
            yield from self.terms(ty, c, ctx)

    def splits(self, total, parts):
        if parts == 1:
            if total >= 1:
                yield (total,)
            return
        for a in range(1, total - parts + 2):
            for rest in self.splits(total - a, parts - 1):
                yield (a,) + rest

    def product(self, types, total, ctx):
        for costs in self.splits(total, len(types)):
            yield from self._product(types, costs, ctx)

    def _product(self, types, costs, ctx):
        if not types:
            yield ()
            return
        for a in self.terms(types[0], costs[0], ctx):
            for rest in self._product(types[1:], costs[1:], ctx):
                yield (a,) + rest

    def _terms(self, ty, cost, ctx):
        name = f"x{len(ctx)}"
        if cost == 1:
            for i, t in enumerate(ctx):
                if t == ty:
                    yield ("v", f"x{i}")
            for i, t in enumerate(self.inputs):
                if t == ty:
                    yield ("in", i)
            if isinstance(ty, str):
                for v in self.lits.get(ty, ()):
                    yield ("lit", v)
            return
        rest = cost - 1
        if isinstance(ty, str):
            for op, args, res in self.ops:
                if res == ty and rest >= len(args):
                    for xs in self.product(args, rest, ctx):
                        yield ("op", op, *xs)
            for fname, arity in self.ext:
                if ty == "f" and rest >= arity:
                    for xs in self.product(("f",) * arity, rest, ctx):
                        yield ("ext", fname, *xs)
        for v in self.vectors:
            if v[1] == ty and rest >= 2:
                for a, i in self.product((v, "i"), rest, ctx):
                    yield ("get", a, i)
        if ty in self.where and rest >= 3:
            for c, a, b in self.product(("b", ty, ty), rest, ctx):
                yield ("where", c, a, b)
        if ty == "i":
            for v, axis in self.sizeof:
                for a in self.terms(v, rest, ctx):
                    yield ("size", a, axis)
        if isinstance(ty, tuple) and ty[0] == "v":
            if self.sizes:
                for body in self.terms(ty[1], rest, ctx + ("i",)):
                    for s in self.sizes:
                        yield ("arr", (name,), (s,), body, False)
            if ty in self.concat and rest >= 2:
                for a, b in self.product((ty, ty), rest, ctx):
                    yield ("cat", a, b)
        if ty in self.accs and rest >= 2:
            for ci, cb in self.splits(rest, 2):
                for init in self.terms(ty, ci, ctx):
                    for body in self.terms(ty, cb, ctx + ("i", ty)):
                        for n in self.counts:
                            yield ("fold", name, f"x{len(ctx) + 1}", n, init, body, False)
        for elem, x, y, init, body in self.monoids:
            if elem == ty:
                for v in self.terms(("v", ty), rest, ctx):
                    yield ("red", x, y, init, body, v)
        if isinstance(ty, tuple) and ty[0] == "t" and ty in self.records and rest >= len(ty) - 1:
            for xs in self.product(ty[1:], rest, ctx):
                yield ("rec", "tuple", xs)
        for r in self.records:
            for k, t in enumerate(r[1:]):
                if t == ty:
                    for a in self.terms(r, rest, ctx):
                        if a[0] != "rec":
                            yield ("proj", a, k)
        for lt in self.lets:
            if rest >= 2:
                for cb, cc in self.splits(rest, 2):
                    for b in self.terms(lt, cb, ctx):
                        if b[0] in ("v", "lit", "in"):
                            continue
                        for c in self.terms(ty, cc, ctx + (lt,)):
                            if count_name(c, name) >= 2:
                                yield ("let", name, b, c)


def count_name(t, name):
    if not isinstance(t, tuple):
        return 0
    if len(t) == 2 and t[0] == "v":
        return int(t[1] == name)
    return sum(count_name(x, name) for x in t)


V = "v"
I2 = [("add", ("i", "i"), "i"), ("sub", ("i", "i"), "i"), ("mul", ("i", "i"), "i"),
      ("min", ("i", "i"), "i"), ("max", ("i", "i"), "i")]
F2 = [("add", ("f", "f"), "f"), ("sub", ("f", "f"), "f"), ("mul", ("f", "f"), "f"),
      ("min", ("f", "f"), "f"), ("max", ("f", "f"), "f")]
VF, VI, VB = (V, "f"), (V, "i"), (V, "b")
MF, MI = (V, VF), (V, VI)
TF, TI = (V, MF), (V, MI)

FLOATS = [1.5, -2.25, 3.0, 0.5, -1.25, 4.75, -0.75, 2.0, 5.5, -3.5, 6.25, -4.0]
INTS = [1, -2, 3, 0, 4, 2, -1, 5, 7, -3, 6, 8]


def data(kind, shape, salt=0):
    """Distinct-valued test data; integers also leave every small index range."""
    import numpy

    n = 1
    for s in shape:
        n *= s
    if kind == "f":
        vals = [FLOATS[(k + 5 * salt) % 12] + 8.0 * ((k + 5 * salt) // 12) for k in range(n)]
        return numpy.array(vals, dtype=float).reshape(shape)
    if kind == "i":
        vals = [INTS[(k + 5 * salt) % 12] + 11 * ((k + 5 * salt) // 12) for k in range(n)]
        return numpy.array(vals, dtype=numpy.int64).reshape(shape)
    vals = [((k * 7 + salt) % 5) in (0, 2) for k in range(n)]
    return numpy.array(vals, dtype=bool).reshape(shape)


def input_for(ty, shape, salt=0):
    r, k = lang.rank_kind(ty)
    assert r == len(shape), (ty, shape)
    return data(k, shape, salt)
