"""Terms of the reference model as real Ein programs, through Ein's public frontend."""
import dataclasses
import operator
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, REPO)

import numpy  # noqa: E402

import ein  # noqa: E402

assert os.path.realpath(ein.__file__).startswith(os.path.realpath(REPO) + os.sep), ein.__file__

from ein import array, ext, fold, function, scalar_type, with_varargs, wrap  # noqa: E402
from ein.frontend import std  # noqa: E402
from ein.frontend.ndarray import _to_array  # noqa: E402, F401

OPS = {
    "add": operator.add,
    "sub": operator.sub,
    "mul": operator.mul,
    "div": operator.truediv,
    "mod": operator.mod,
    "pow": operator.pow,
    "min": lambda a, b: wrap(a).min(b),
    "max": lambda a, b: wrap(a).max(b),
    "lt": operator.lt,
    "le": operator.le,
    "gt": operator.gt,
    "ge": operator.ge,
    "eq": operator.eq,
    "ne": operator.ne,
    "and": operator.and_,
    "or": operator.or_,
    "not": operator.invert,
    "neg": operator.neg,
    "abs": abs,
    "float": lambda a: a.float(),
    "exp": lambda a: a.exp(),
    "sin": lambda a: a.sin(),
    "cos": lambda a: a.cos(),
    "tanh": lambda a: a.tanh(),
}


@dataclasses.dataclass(frozen=True)
class P:
    u: object
    w: object


@dataclasses.dataclass(frozen=True)
class Q:
    w: object
    a: object
    u: object


DATACLASSES = {"P": P, "Q": Q}
DICT_KEYS = ("b", "a", "c", "d", "e")
ODD_KEYS = ("items", "values", "get", "expr", "layout")  # also names of attributes


def hyp(a, b):
    return (a * a + b * b) ** 0.5


def sq(a):
    return a * a


def fma(a, b, c):
    return a * b + c


def vsum(x):
    return x.sum(-1)


def vmax(x):
    return x.max(-1) if isinstance(x, numpy.ndarray) else x.amax(-1)


EXTS = {"hyp": hyp, "sq": sq, "fma": fma}
EXTVS = {"vsum": vsum, "vmax": vmax}


EXTG = {}  # name -> (function on arrays, signature)


def project(x, k):
    if isinstance(x, (tuple, list)):
        return x[k]
    if isinstance(x, dict):
        return list(x.values())[k]
    return getattr(x, dataclasses.fields(x)[k].name)


def record(kind, fields):
    if kind == "tuple":
        return tuple(fields)
    if kind == "list":
        return list(fields)
    if kind == "dict":
        return dict(zip(DICT_KEYS, fields))
    if kind == "odd":
        return dict(zip(ODD_KEYS, fields))
    return DATACLASSES[kind](*fields)


def build(t, env, ins, raw=False):
    """raw: pass literals as Python values where an operator or function accepts them."""
    k = t[0]
    if k == "lit":
        return t[1] if raw else wrap(t[1])
    if k == "v":
        return env[t[1]]
    if k == "in":
        return ins[t[1]]
    if k == "op":
        args = [build(a, env, ins, raw) for a in t[2:]]
        if raw and all(isinstance(a, (bool, int, float)) for a in args):
            args[0] = wrap(args[0])
        return OPS[t[1]](*args)
    if k == "get":
        v = build(t[1], env, ins, raw)
        idx = tuple(build(i, env, ins, raw) for i in t[2:])
        return v[idx[0]] if len(idx) == 1 else v[idx]
    if k == "where":
        return std.where(*[build(a, env, ins, raw) for a in t[1:]])
    if k == "arr":
        _, names, sizes, body, infer = t
        fun = _lam(names, lambda *xs: build(body, {**env, **dict(zip(names, xs))}, ins, raw))
        if infer:
            return array(fun)
        ss = tuple(build(s, env, ins, raw) for s in sizes)
        return array(fun, size=ss[0] if len(ss) == 1 else ss)
    if k == "fold":
        _, i, acc, count, init, body, infer = t
        n = None if infer else build(count, env, ins, raw)
        return fold(
            build(init, env, ins, raw),
            lambda a, b: build(body, {**env, i: a, acc: b}, ins, raw),
            count=n,
        )
    if k == "red":
        _, x, y, init, body, vec = t
        return build(vec, env, ins, raw).reduce(
            build(init, env, ins, raw),
            lambda a, b: build(body, {**env, x: a, y: b}, ins, raw),
        )
    if k == "cat":
        return std.concat(build(t[1], env, ins, raw), build(t[2], env, ins, raw))
    if k == "size":
        return build(t[1], env, ins, raw).size(t[2])
    if k == "rec":
        return record(t[1], [build(a, env, ins, raw) for a in t[2]])
    if k == "proj":
        return project(build(t[1], env, ins, raw), t[2])
    if k == "let":
        return build(t[3], {**env, t[1]: build(t[2], env, ins, raw)}, ins, raw)
    if k == "ext":
        return ext(EXTS[t[1]], scalar_type(float))(*[build(a, env, ins, raw) for a in t[2:]])
    if k == "extv":
        return ext(EXTVS[t[1]], scalar_type(float))(build(t[2], env, ins, raw))
    if k == "extg":
        fun, signature = EXTG[t[1]]
        return ext(fun, signature)(*[build(a, env, ins, raw) for a in t[2:]])
    raise ValueError(t)


def _lam(names, f):
    # Ein reads the arity of the constructor from its signature.
    n = len(names)
    if n == 1:
        return lambda i: f(i)
    if n == 2:
        return lambda i, j: f(i, j)
    if n == 3:
        return lambda i, j, k: f(i, j, k)
    if n == 4:
        return lambda i, j, k, l: f(i, j, k, l)
    raise ValueError(n)


def program(t, raw=False):
    """A host function of the inputs."""
    return lambda *ins: build(t, {}, ins, raw)
