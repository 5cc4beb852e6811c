"""Constants: every pair and triple of easily confused constants in one program; each is read at its own place.

A program reads all elements of its constants, through several constructs that share work; the expected values are read
from the arrays directly.  Histories over one mutable buffer follow.
"""
import itertools

import numpy

from mc import execm, real  # noqa: F401
from ein import array, fold, where, wrap
from ein.frontend.std import concat

NAN = float("nan")


def _buffer():
    return numpy.arange(1, 13, dtype=numpy.float64)


def scalars():
    yield from (("s:0", 0), ("s:1", 1), ("s:F", False), ("s:T", True), ("s:0.0", 0.0), ("s:-0.0", -0.0), ("s:1.0", 1.0),
                ("s:-1", -1), ("s:-1.0", -1.0), ("s:nan", NAN), ("s:inf", float("inf")), ("s:-inf", float("-inf")),
                ("s:2**53", 2**53), ("s:2**53+1", 2**53 + 1), ("s:2.0**53", 2.0**53), ("s:1e-300", 1e-300))
    yield from (("s:arr0", numpy.array(0.0)), ("s:arr-0", numpy.array(-0.0)), ("s:arri", numpy.array(0)),
                ("s:arrf4", numpy.array(1.0, dtype=numpy.float32)), ("s:arri4", numpy.array(1, dtype=numpy.int32)))


def arrays():
    b = _buffer()
    z = numpy.zeros
    yield "zi3", z(3, numpy.int64)
    yield "zf3", z(3, numpy.float64)
    yield "zf3'", z(3, numpy.float64)
    yield "zn3", numpy.array([-0.0, 0.0, -0.0])
    yield "zf4:6", z(6, numpy.float32)
    yield "zi4:6", z(6, numpy.int32)
    yield "zb24", z(24, numpy.bool_)
    yield "zi1:24", z(24, numpy.int8)
    yield "zu1:24", z(24, numpy.uint8)
    yield "zf1x3", z((1, 3))
    yield "zf3x1", z((3, 1))
    yield "ones:i", numpy.ones(3, numpy.int64)
    yield "ones:f", numpy.ones(3, numpy.float64)
    yield "ones-bits:i", numpy.ones(3, numpy.float64).view(numpy.int64)
    yield "ones:b", numpy.ones(3, numpy.bool_)
    yield "b:12", b
    yield "b:2x6", b.reshape(2, 6)
    yield "b:6x2", b.reshape(6, 2)
    yield "b:3x4", b.reshape(3, 4)
    yield "b:4x3.T", b.reshape(4, 3).T
    yield "b:3x4F", numpy.asfortranarray(b.reshape(3, 4))
    yield "b:6", b[:6]
    yield "b:6'", b[6:]
    yield "b:even", b[::2]
    yield "b:rev", b[::-1]
    yield "b:rev6", b[5::-1]
    yield "b:copy", b.copy()
    yield "b:off1", b + numpy.where(numpy.arange(12) == 7, 1.0, 0.0)
    yield "bcast", numpy.broadcast_to(numpy.array(2.0), (4,))
    yield "full2", numpy.full(4, 2.0)
    yield "nan", numpy.array([NAN, 1.0, NAN])
    yield "nan'", numpy.array([1.0, NAN, NAN])
    yield "e0", z(0)
    yield "e0i", z(0, numpy.int64)
    yield "e0x3", z((0, 3))
    yield "e3x0", z((3, 0))
    yield "e2x0", z((2, 0))
    big = numpy.arange(1500, dtype=numpy.float64)
    yield "big", big
    yield "big'", big.copy()
    yield "big+", big + numpy.where(numpy.arange(1500) == 700, 0.5, 0.0)
    yield "big-view", big[1:]
    yield "big-rev", big[::-1]
    yield "bigi", numpy.arange(1500)
    yield "wide", numpy.arange(3000, dtype=numpy.float64).reshape(2, 1500)
    yield "tall", numpy.arange(3000, dtype=numpy.float64).reshape(1500, 2)
    yield "1023", numpy.arange(1023, dtype=numpy.float64)
    yield "1024", numpy.arange(1024, dtype=numpy.float64)


CONST = dict(itertools.chain(scalars(), arrays()))
NAMES = list(CONST)
FEW = ["s:0", "s:F", "s:0.0", "s:-0.0", "s:1", "s:T", "s:nan", "zi3", "zf3", "zn3", "zf4:6", "zb24", "zf1x3", "zf3x1", "ones:f",
       "ones-bits:i", "b:12", "b:2x6", "b:6", "b:rev", "b:off1", "nan", "e0x3", "e3x0", "big", "big+"]
VERY_FEW = ["s:0", "s:0.0", "s:-0.0", "s:F", "zi3", "zf3", "zn3", "b:2x6", "b:6x2", "b:rev", "big", "big+"]


def probes(a):
    """Positions read from a constant: all of a small one, some of a big one."""
    a = numpy.asarray(a)
    if a.size > 6:
        for p in sorted({0, 1, 700 % a.size, 7, a.size - 1} if a.size > 30 else {0, 1, 3, 7 % a.size, a.size - 1}):
            yield tuple(int(x) for x in numpy.unravel_index(p, a.shape))
    else:
        yield from itertools.product(*map(range, a.shape))


def mark_host(x, kind):
    """A finite number that tells apart the values of interest, with their kind."""
    if kind == "b":
        return 5000.0 + (1.0 if x else 0.0)
    if kind == "i":
        x = int(x)
        return 7000.0 + float(x % 1000) + (0.5 if x < 0 else 0.0)
    x = float(x)
    if x != x:
        return 3000.0
    if numpy.isinf(x):
        return 3001.0 if x > 0 else 3002.0
    if x == 0.0:
        return 0.25 if numpy.signbit(x) else 0.75
    return x


def mark_ein(x, kind):
    if kind == "b":
        return 5000.0 + where(x, 1.0, 0.0)
    if kind == "i":
        return 7000.0 + (x % 1000).float() + where(x < 0, 0.5, 0.0)
    inf = float("inf")
    return where(x != x, 3000.0, where(x == inf, 3001.0, where(x == -inf, 3002.0, where(x == 0.0, where((1.0 / x) < 0.0, 0.25, 0.75), x))))


def kind_of(a):
    return {"b": "b", "i": "i", "u": "i", "f": "f"}[numpy.asarray(a).dtype.kind]


def read_all(e, a):
    """Scalars of the program, and their values."""
    a = numpy.asarray(a)
    k = kind_of(a)
    for p in probes(a):
        yield mark_ein(e[p] if p else e, k), mark_host(a[p], k)
    for axis in range(a.ndim):
        yield e.size(axis).float(), float(a.shape[axis])


def vector(scalars):
    vecs = [array(lambda _i, s=s: s, size=1) for s in scalars]
    return concat(*vecs)


def as_constant(a, form):
    if form == "torch":
        import torch

        return torch.from_numpy(numpy.array(a))
    if form == "jax":
        import jax.numpy as jnp

        return jnp.asarray(numpy.array(a))
    return a


def program(names, template, form):
    """The program over the constants, and the values it has to give."""
    consts = [CONST[n] for n in names]
    made = [as_constant(c, form if form != "mixed" or j % 2 else "numpy") for j, c in enumerate(consts)]
    exprs = [wrap(m) for m in made]
    if template == "list":
        pairs = [p for e, c in zip(exprs, consts) for p in read_all(e, c)]
        return vector([p[0] for p in pairs]), [p[1] for p in pairs]
    if template == "zip":
        # the constants meet in one expression at every position
        parts = [list(read_all(e, c)) for e, c in zip(exprs, consts)]
        n = max(map(len, parts))
        scal, want = [], []
        for t in range(n):
            s, w = wrap(0.0), 0.0
            for k, part in enumerate(parts):
                if part:
                    ps, pw = part[t % len(part)]
                    s, w = s * 3.0 + ps, w * 3.0 + pw
            scal.append(s)
            want.append(w)
        return (vector(scal), want) if scal else None
    # whole rows read with an index, in a comprehension over a size, a fold, and both
    rows, want = [], []
    for e, c in zip(exprs, consts):
        c = numpy.asarray(c)
        k = kind_of(c)
        n = min(c.shape[0], 5) if c.ndim else 1
        if c.ndim == 0:
            rows.append(array(lambda i, e=e, k=k: mark_ein(e, k), size=1))
            want += [mark_host(c, k)]
        elif c.ndim == 1 or c.shape[1] == 0 or c.shape[0] == 0:
            if c.ndim == 2:
                rows.append(array(lambda i, e=e: e.size(0).float() * 10.0 + e.size(1).float(), size=1))
                want += [c.shape[0] * 10.0 + c.shape[1]]
                continue
            rows.append(array(lambda i, e=e, k=k: mark_ein(e[i], k), size=n))
            want += [mark_host(x, k) for x in c[:n]]
        else:
            m = c.shape[1] - 1
            rows.append(array(lambda i, e=e, k=k, m=m: mark_ein(e[i, 0], k) + 2.0 * mark_ein(e[i, m], k), size=n))
            want += [mark_host(x[0], k) + 2.0 * mark_host(x[m], k) for x in c[:n]]
    if template == "rows":
        return concat(*rows), want
    if template == "fold":
        def total(e, c):
            c = numpy.asarray(c)
            k = kind_of(c)
            if c.ndim == 0:
                return mark_ein(e, k), mark_host(c, k)
            n = min(c.shape[0], 5)
            if c.ndim == 2 and (c.shape[1] == 0 or n == 0):
                return e.size(0).float() * 10.0 + e.size(1).float(), c.shape[0] * 10.0 + c.shape[1]
            w = 0.0
            for x in c[:n]:
                w = w * 0.5 + mark_host(x if c.ndim == 1 else x[-1], k)
            last = (c.shape[1] - 1) if c.ndim == 2 else None
            return fold(0.0, lambda i, acc: acc * 0.5 + mark_ein(e[i] if last is None else e[i, last], k), count=n), w

        ts = [total(e, c) for e, c in zip(exprs, consts)]
        return vector([t[0] for t in ts]), [t[1] for t in ts]
    raise ValueError(template)


TEMPLATES = ("list", "zip", "rows", "fold")


def torch_can(a):
    a = numpy.asarray(a)
    return a.dtype.byteorder in "=|<"


def run_consts(ctx, names, template, be, form):
    made = program(names, template, form)
    if made is None:
        return None
    e, want = made
    ctx.states += len(want)
    ctx.transitions += 1
    try:
        got = execm.to_host(e.eval(backend=be))
    except Exception as ex:
        return f"[{be}, {form}] {template} of {names} raised {type(ex).__name__}: {str(ex)[:300]}"
    got = got.reshape(-1).tolist()
    if len(got) != len(want):
        return f"[{be}, {form}] {template} of {names}: {len(got)} values instead of {len(want)}"
    for p, (g, w) in enumerate(zip(got, want)):
        if not abs(g - w) <= 1e-4 * max(1.0, abs(w)):
            return f"[{be}, {form}] {template} of {names}: value {p} is {g!r} instead of {w!r}"
    ctx.traces += 1
    return None


STEPS = ("build", "eval", "write", "restore")


def run_history(ctx, steps, shape):
    """Programs built on one buffer, which the caller writes to in between.

    A program built and evaluated after a write reads what the buffer holds then; one already built reads either the
    contents it was built on or the present ones, as a whole.
    """
    buf = numpy.zeros(shape)
    flat = buf.reshape(-1)
    built = []
    for s in steps:
        if s == "build":
            a = wrap(buf)
            other = wrap(numpy.zeros(shape))  # what the buffer held at first
            rank = len(shape)
            if rank == 1:
                e = array(lambda i: a[i] + 10.0 * other[i])
            else:
                e = array(lambda i, j: a[i, j] + 10.0 * other[i, j])
            built.append((e, buf.copy()))
        elif s == "write":
            flat[0] += 1.0
        elif s == "restore":
            flat[:] = 0.0
        else:
            for k, (e, snap) in enumerate(built):
                ctx.transitions += 1
                got = e.eval()
                if numpy.array_equal(got, buf) or (k < len(built) - 1 and numpy.array_equal(got, snap)):
                    continue
                if not numpy.array_equal(snap, buf) and numpy.array_equal(got, snap):
                    continue
                return f"after {steps}: program {k} gave {got.tolist()}, the buffer holds {buf.tolist()}"
    ctx.states += 1
    ctx.traces += 1
    return None


def cases(tier):
    thorough = tier == "thorough"
    for n in NAMES:
        for t in TEMPLATES:
            for be in ("numpy", "naive", "torch", "jax"):
                yield ("consts", ((n,), t, be, "numpy"), "single")
            for be in ("torch", "jax"):
                yield ("consts", ((n,), t, be, be), "single tensors")
    for a, b in itertools.combinations(NAMES, 2):
        for t in TEMPLATES if thorough or (a in FEW and b in FEW) else ("zip",):
            yield ("consts", ((a, b), t, "numpy", "numpy"), "pairs")
    for a, b in itertools.permutations(FEW, 2) if thorough else itertools.combinations(FEW, 2):
        for t in ("zip",) if not thorough else TEMPLATES:
            yield ("consts", ((a, b), t, "torch", "numpy"), "pairs")
            yield ("consts", ((a, b), t, "torch", "torch"), "pairs of tensors")
            yield ("consts", ((a, b), t, "naive", "numpy"), "pairs")
    for a, b in itertools.combinations(FEW if thorough else VERY_FEW, 2):
        for form in ("numpy", "jax"):
            yield ("consts", ((a, b), "zip", "jax", form), "pairs")
    for names in itertools.product(FEW if thorough else VERY_FEW, repeat=3):
        yield ("consts", (names, "zip", "numpy", "numpy"), "triples")
        if thorough:
            yield ("consts", (names, "rows", "torch", "numpy"), "triples")
    for d in range(1, 7 if thorough else 6):
        for steps in itertools.product(STEPS, repeat=d):
            if steps[-1] == "eval" and "build" in steps:
                yield ("history", (steps, (3,)), "histories")
                yield ("history", (steps, (1200,)), "histories")
