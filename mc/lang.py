"""Surface terms of the reference model, and their denotation.

A term is a nested tuple (hashable, JSON-able).  This module never imports ein: it is the
reference model the implementation is compared with.

  ('lit', v)                              Python bool / int / float
  ('in', k)                               k-th program input
  ('v', name)                             bound name
  ('op', op, a, ...)                      scalar operator
  ('where', c, t, f)                      selection, structural over records and vectors
  ('get', vec, idx, ...)                  vec[idx, ...]; positions are clamped
  ('arr', (names), (sizes), body, infer)  comprehension; infer=True: sizes are left to inference
  ('fold', i, acc, count, init, body, infer)
  ('red', x, y, init, body, vec)
  ('cat', a, b)
  ('size', vec, axis)
  ('rec', kind, (fields))                 kind: 'tuple' | 'list' | 'dict' | 'P' | 'Q' (dataclasses)
  ('proj', rec, k)
  ('let', name, bind, body)               host-level sharing of one expression object
  ('ext', fname, a, ...)                  extrinsic call on scalars
  ('extv', fname, vec)                    extrinsic call on a vector (reduces the last axis)
  ('extg', fname, a, ...)                 extrinsic call on scalars and vectors (see EXTG)
"""
import math


class _Bot:
    """An unspecified value (element of an empty vector, overflow, division by zero)."""

    __slots__ = ()

    def __repr__(self):
        return "BOT"


BOT = _Bot()


class RVec:
    """A vector: its items and, when empty, a prototype element carrying the inner shape."""

    __slots__ = ("items", "proto")

    def __init__(self, items, proto=None):
        self.items = items
        self.proto = items[0] if items else proto

    def __repr__(self):
        return f"RVec({self.items!r})"


def botify(v):
    if isinstance(v, RVec):
        return RVec([botify(x) for x in v.items], botify(v.proto) if not v.items else None)
    if isinstance(v, tuple):
        return tuple(botify(x) for x in v)
    return BOT


def shape_of(v):
    s = []
    while isinstance(v, RVec):
        s.append(len(v.items))
        v = v.proto
    return tuple(s)


def leaves(v):
    if isinstance(v, RVec):
        for x in v.items:
            yield from leaves(x)
    elif isinstance(v, tuple):
        for x in v:
            yield from leaves(x)
    else:
        yield v


LIMIT_I = 2**53
LIMIT_F = 1e100


def _norm(r):
    if isinstance(r, bool):
        return r
    if isinstance(r, int):
        return r if -LIMIT_I < r < LIMIT_I else BOT
    if isinstance(r, float):
        if r != r:
            return BOT
        if math.isinf(r):
            return r
        return r if -LIMIT_F < r < LIMIT_F else BOT
    return BOT


def _total(f):
    def g(*args):
        for a in args:
            if a is BOT:
                return BOT
        try:
            return _norm(f(*args))
        except (ZeroDivisionError, OverflowError, ValueError):
            return BOT

    return g


def _and(a, b):
    if a is False or b is False:
        return False
    if a is BOT or b is BOT:
        return BOT
    return a and b


def _or(a, b):
    if a is True or b is True:
        return True
    if a is BOT or b is BOT:
        return BOT
    return a or b


def _fpow(a, b):
    r = a**b
    if isinstance(r, complex):
        raise ValueError
    return r


OPS = {
    "add": _total(lambda a, b: a + b),
    "sub": _total(lambda a, b: a - b),
    "mul": _total(lambda a, b: a * b),
    "div": _total(lambda a, b: a / b),
    "mod": _total(lambda a, b: a % b),
    "pow": _total(_fpow),
    "min": _total(lambda a, b: a if a <= b else b),
    "max": _total(lambda a, b: a if a >= b else b),
    "lt": _total(lambda a, b: a < b),
    "le": _total(lambda a, b: a <= b),
    "gt": _total(lambda a, b: a > b),
    "ge": _total(lambda a, b: a >= b),
    "eq": _total(lambda a, b: a == b),
    "ne": _total(lambda a, b: a != b),
    "and": _and,
    "or": _or,
    "not": _total(lambda a: not a),
    "neg": _total(lambda a: -a),
    "abs": _total(abs),
    "float": _total(float),
    "exp": _total(math.exp),
    "sin": _total(math.sin),
    "cos": _total(math.cos),
    "tanh": _total(math.tanh),
}

EXTS = {
    # name -> reference on scalars
    "hyp": _total(lambda a, b: math.hypot(a, b)),
    "sq": _total(lambda a: a * a),
    "fma": _total(lambda a, b, c: a * b + c),
}
EXTVS = {
    "vsum": lambda xs: _total(lambda *a: math.fsum(a))(*xs) if xs else 0.0,
    "vmax": lambda xs: _total(lambda *a: max(a))(*xs) if xs else BOT,
}


EXTG = {}  # name -> (reference on model values, result type); filled by the check that uses them


def get1(v, i):
    if not v.items:
        return botify(v.proto)
    if i is BOT:
        return botify(v.items[0])
    n = len(v.items)
    return v.items[0 if i < 0 else n - 1 if i >= n else i]


def same_shape(a, b):
    """Selections and concatenations are defined for vectors of equal (inner) shapes."""
    if isinstance(a, RVec):
        if shape_of(a) != shape_of(b):
            raise Unspecified
        if a.items and isinstance(innermost(a), tuple):
            same_shape(a.items[0], b.items[0])
    elif isinstance(a, tuple):
        for x, y in zip(a, b):
            same_shape(x, y)


def innermost(v):
    while isinstance(v, RVec):
        v = v.proto
    return v


def choose(c, t, f):
    same_shape(t, f)
    if c is BOT:
        return botify(t)
    return t if c else f


def size_at(v, axis):
    for _ in range(axis):
        v = v.proto
    return len(v.items)


class Unspecified(Exception):
    """A size is unspecified: the program is outside of the modelled domain."""


class Extents:
    """While active: the extents of the vectors that names of inferred comprehensions and folds directly index."""

    def __init__(self):
        self.given = {}  # name -> extents given to it
        self.read = {}  # name -> extents it indexes

    def agree(self):
        return all(len(self.given[n] | self.read.get(n, set())) == 1 for n in self.given)


EXTENTS = None


def evaluate(t, env, ins):
    k = t[0]
    if k == "lit":
        return t[1]
    if k == "v":
        return env[t[1]]
    if k == "in":
        return ins[t[1]]
    if k == "op":
        return OPS[t[1]](*[evaluate(a, env, ins) for a in t[2:]])
    if k == "get":
        v = evaluate(t[1], env, ins)
        for i in t[2:]:
            if EXTENTS is not None and i[0] == "v":
                EXTENTS.read.setdefault(i[1], set()).add(len(v.items))
            v = get1(v, evaluate(i, env, ins))
        return v
    if k == "where":
        return choose(*[evaluate(a, env, ins) for a in t[1:]])
    if k == "arr":
        return _arr(t[1], t[2], t[3], env, ins, t[4])
    if k == "fold":
        _, i, acc, count, init, body, _infer = t
        n = evaluate(count, env, ins)
        a = evaluate(init, env, ins)
        if n is BOT:
            raise Unspecified
        e = dict(env)
        if EXTENTS is not None:
            if _infer:
                EXTENTS.given.setdefault(i, set()).add(n)
            if n <= 0:
                evaluate(body, {**e, i: BOT, acc: botify(a)}, ins)
        for j in range(n):
            e[i] = j
            e[acc] = a
            a = evaluate(body, e, ins)
        return a
    if k == "red":
        _, x, y, init, body, vec = t
        a = evaluate(init, env, ins)
        v = evaluate(vec, env, ins)
        if not v.items:
            return a
        e = dict(env)
        a = v.items[0]
        for item in v.items[1:]:
            e[x], e[y] = a, item
            a = evaluate(body, e, ins)
        return a
    if k == "cat":
        a, b = evaluate(t[1], env, ins), evaluate(t[2], env, ins)
        same_shape(a.proto, b.proto)
        return RVec(a.items + b.items, a.proto)
    if k == "size":
        return size_at(evaluate(t[1], env, ins), t[2])
    if k == "rec":
        return tuple(evaluate(a, env, ins) for a in t[2])
    if k == "proj":
        return evaluate(t[1], env, ins)[t[2]]
    if k == "let":
        e = dict(env)
        e[t[1]] = evaluate(t[2], env, ins)
        return evaluate(t[3], e, ins)
    if k == "ext":
        return EXTS[t[1]](*[evaluate(a, env, ins) for a in t[2:]])
    if k == "extv":
        return EXTVS[t[1]](evaluate(t[2], env, ins).items)
    if k == "extg":
        return EXTG[t[1]][0](*[evaluate(a, env, ins) for a in t[2:]])
    raise ValueError(t)


def _arr(names, sizes, body, env, ins, infer=False):
    if not names:
        return evaluate(body, env, ins)
    n = evaluate(sizes[0], env, ins)
    if n is BOT or n < 0:
        raise Unspecified
    e = dict(env)
    if EXTENTS is not None and infer:
        EXTENTS.given.setdefault(names[0], set()).add(n)
    items = []
    for j in range(n):
        e[names[0]] = j
        items.append(_arr(names[1:], sizes[1:], body, e, ins, infer))
    if items:
        return RVec(items)
    e[names[0]] = BOT
    return RVec(items, botify(_arr(names[1:], sizes[1:], body, e, ins, infer)))


def from_nested(x, rank, shape=None):
    """A nested list (with its shape) as a model value."""
    if rank == 0:
        return x
    items = [from_nested(y, rank - 1, shape[1:]) for y in x]
    if items:
        return RVec(items)
    return RVec([], _empty_proto(shape[1:]))


def _empty_proto(shape):
    if not shape:
        return BOT
    p = _empty_proto(shape[1:])
    return RVec([p] * shape[0], p)


def typeof(t, env, ins):
    """'i' | 'f' | 'b' | ('v', T) | ('t', T, ...); raises TypeError on ill-typed terms."""
    k = t[0]
    if k == "lit":
        v = t[1]
        return "b" if isinstance(v, bool) else "i" if isinstance(v, int) else "f"
    if k == "v":
        return env[t[1]]
    if k == "in":
        return ins[t[1]]
    if k == "op":
        ts = [typeof(a, env, ins) for a in t[2:]]
        return op_type(t[1], ts)
    if k == "get":
        v = typeof(t[1], env, ins)
        for i in t[2:]:
            need(v[0] == "v" and isinstance(v, tuple), t)
            need(typeof(i, env, ins) == "i", t)
            v = v[1]
        return v
    if k == "where":
        c, a, b = [typeof(x, env, ins) for x in t[1:]]
        need(c == "b" and a == b, t)
        return a
    if k == "arr":
        e = dict(env)
        for s in t[2]:
            need(typeof(s, env, ins) == "i", t)
        for n in t[1]:
            e[n] = "i"
        r = typeof(t[3], e, ins)
        for _ in t[1]:
            r = ("v", r)
        return r
    if k == "fold":
        _, i, acc, count, init, body, _infer = t
        need(typeof(count, env, ins) == "i", t)
        a = typeof(init, env, ins)
        need(typeof(body, {**env, i: "i", acc: a}, ins) == a, t)
        return a
    if k == "red":
        _, x, y, init, body, vec = t
        v = typeof(vec, env, ins)
        need(isinstance(v, tuple) and v[0] == "v", t)
        a = typeof(init, env, ins)
        need(a == v[1] and typeof(body, {**env, x: a, y: a}, ins) == a, t)
        return a
    if k == "cat":
        a, b = typeof(t[1], env, ins), typeof(t[2], env, ins)
        need(a == b and isinstance(a, tuple) and a[0] == "v", t)
        return a
    if k == "size":
        v = typeof(t[1], env, ins)
        for _ in range(t[2] + 1):
            need(isinstance(v, tuple) and v[0] == "v", t)
            v = v[1]
        return "i"
    if k == "rec":
        return ("t", *[typeof(a, env, ins) for a in t[2]])
    if k == "proj":
        v = typeof(t[1], env, ins)
        need(isinstance(v, tuple) and v[0] == "t", t)
        return v[1 + t[2]]
    if k == "let":
        return typeof(t[3], {**env, t[1]: typeof(t[2], env, ins)}, ins)
    if k == "ext":
        return "f"
    if k == "extv":
        return "f"
    if k == "extg":
        return EXTG[t[1]][1]
    raise ValueError(t)


def need(ok, t):
    if not ok:
        raise TypeError(t)


ARITH = {"add", "sub", "mul", "min", "max"}
COMPARE = {"lt", "le", "gt", "ge", "eq", "ne"}


def op_type(op, ts):
    if op in ARITH:
        need(ts[0] == ts[1] and ts[0] in ("i", "f"), (op, ts))
        return ts[0]
    if op in COMPARE:
        need(ts[0] == ts[1] and ts[0] in ("i", "f"), (op, ts))
        return "b"
    if op in ("neg", "abs"):
        need(ts[0] in ("i", "f"), (op, ts))
        return ts[0]
    if op == "mod":
        need(ts == ["i", "i"], (op, ts))
        return "i"
    if op in ("div", "pow"):
        need(ts == ["f", "f"], (op, ts))
        return "f"
    if op in ("and", "or"):
        need(ts == ["b", "b"], (op, ts))
        return "b"
    if op == "not":
        need(ts == ["b"], (op, ts))
        return "b"
    if op == "float":
        need(ts == ["i"], (op, ts))
        return "f"
    need(ts == ["f"], (op, ts))
    return "f"


def rank_kind(ty):
    r = 0
    while isinstance(ty, tuple):
        if ty[0] != "v":
            raise TypeError(ty)
        ty, r = ty[1], r + 1
    return r, ty


def nodes(t):
    if not isinstance(t, tuple):
        return 0
    n = 1 if t and isinstance(t[0], str) and t[0] in _TAGS else 0
    return n + sum(nodes(x) for x in t)


_TAGS = {"lit", "in", "v", "op", "where", "get", "arr", "fold", "red", "cat", "size", "rec",
         "proj", "let", "ext", "extv", "extg"}


def subterms(t):
    if isinstance(t, tuple):
        if t and isinstance(t[0], str) and t[0] in _TAGS:
            yield t
        for x in t:
            yield from subterms(x)


def sizes_depend_on_indices(t, idx=frozenset()):
    """Ein's documented restriction: sizes and counts may not mention comprehension indices."""
    if not isinstance(t, tuple):
        return False
    k = t[0] if t else None
    if k == "v":
        return False
    if k == "arr":
        if any(mentions(s, idx) or sizes_depend_on_indices(s, idx) for s in t[2]):
            return True
        return sizes_depend_on_indices(t[3], idx | set(t[1]))
    if k == "fold":
        _, i, acc, count, init, body, _infer = t
        if mentions(count, idx):
            return True
        inner = idx - {i, acc} | ({acc} if mentions(init, idx) or mentions(body, idx) else set())
        return any(sizes_depend_on_indices(x, idx) for x in (count, init)) or sizes_depend_on_indices(body, inner)
    if k == "red":
        _, x, y, init, body, vec = t
        return any(sizes_depend_on_indices(z, idx) for z in (init, vec)) or \
            sizes_depend_on_indices(body, idx - {x, y} | ({x, y} if mentions(vec, idx) else set()))
    if k == "let":
        inner = idx - {t[1]} | ({t[1]} if mentions(t[2], idx) else set())
        return sizes_depend_on_indices(t[2], idx) or sizes_depend_on_indices(t[3], inner)
    return any(sizes_depend_on_indices(x, idx) for x in t)


def mentions(t, names):
    if not names or not isinstance(t, tuple):
        return False
    if len(t) == 2 and t[0] == "v":
        return t[1] in names
    return any(mentions(x, names) for x in t)


def binders(t):
    """Names bound anywhere in a term, with repetitions."""
    for s in subterms(t):
        if s[0] == "arr":
            yield from s[1]
        elif s[0] == "fold":
            yield from s[1:3]
        elif s[0] == "red":
            yield from s[1:3]
        elif s[0] == "let":
            yield s[1]


def direct_targets(name, t, bound=frozenset(), lets=()):
    """(target term, names bound between the body and it) of the reads in t that index directly with the name."""
    if not isinstance(t, tuple) or not t:
        return
    k = t[0]
    if k == "get":
        for n in range(2, len(t)):
            if t[n] == ("v", name):
                yield (t[1] if n == 2 else ("get",) + t[1:n]), bound, lets
    inner, new_lets = bound, lets
    if k == "arr":
        inner = bound | set(t[1])
    elif k in ("fold", "red"):
        inner = bound | set(t[1:3])
    elif k == "let":
        new_lets = lets + ((t[1], t[2]),)
    for j, x in enumerate(t):
        if k == "let" and j == 2:
            yield from direct_targets(name, x, bound, lets)
        else:
            yield from direct_targets(name, x, inner, new_lets)


def inline(t, name, bind):
    if not isinstance(t, tuple):
        return t
    if t == ("v", name):
        return bind
    return tuple(inline(x, name, bind) for x in t)


def without_lets(t):
    """Names bound by let replaced by what they name (names are unique in the programs this is used on)."""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == "let":
        return without_lets(inline(t[3], t[1], t[2]))
    return tuple(without_lets(x) for x in t)


def apart(t):
    """The term with every binder renamed to a name of its own."""
    count = [0]

    def fresh(n):
        count[0] += 1
        return f"{n}_{count[0]}"

    def go(t, env):
        if not isinstance(t, tuple) or not t:
            return t
        k = t[0]
        if k == "v":
            return ("v", env.get(t[1], t[1]))
        if k == "arr":
            names = tuple(fresh(n) for n in t[1])
            return ("arr", names, tuple(go(s, env) for s in t[2]), go(t[3], {**env, **dict(zip(t[1], names))}), t[4])
        if k == "fold":
            i, acc = fresh(t[1]), fresh(t[2])
            return ("fold", i, acc, go(t[3], env), go(t[4], env), go(t[5], {**env, t[1]: i, t[2]: acc}), t[6])
        if k == "red":
            x, y = fresh(t[1]), fresh(t[2])
            return ("red", x, y, go(t[3], env), go(t[4], {**env, t[1]: x, t[2]: y}), go(t[5], env))
        if k == "let":
            n = fresh(t[1])
            return ("let", n, go(t[2], env), go(t[3], {**env, t[1]: n}))
        return tuple(go(x, env) for x in t)

    return go(t, {})
