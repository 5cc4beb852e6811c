"""Typing: every construct at every combination of operand types is accepted or rejected as the typing rules say;
what is accepted evaluates to the declared rank and scalar kind."""
import itertools

from mc import execm, fam, famfold, lang, real, runners
from mc.fam import add, arr, cat, fold, get, inp, let, lit, mul, op, proj, rec, red, size, sub, tofloat, v, vals, where
from mc.runners import run_prog  # noqa: F401

SPEC = (("b", "n"), ("i", "n"), ("f", "n"), ("i", "nn"), ("f", "nn"), ("f", "nnn"), ("b", ""), ("i", ""), ("f", ""))
IB, II, IF, IMI, IMF, ITF, SB, SI, SF = (inp(k) for k in range(9))
VA = vals("n", (2,), (3,))
VB, VI, VF, MI, MF, TF = ("v", "b"), ("v", "i"), ("v", "f"), ("v", ("v", "i")), ("v", ("v", "f")), ("v", ("v", ("v", "f")))
REC = ("t", "f", "i")

# representatives of every type; those mentioning "i" are usable inside of a comprehension over i
REPS = {
    "b": [lit(True), get(IB, lit(0)), SB, op("lt", SI, lit(2)), ("op", "not", get(IB, v("i")))],
    "i": [lit(2), get(II, lit(1)), SI, size(IF), v("i"), add(get(II, v("i")), lit(1))],
    "f": [lit(1.5), get(IF, lit(0)), SF, tofloat(SI), mul(get(IF, v("i")), lit(2.0)),
          fold(lit(2), lit(0.0), add(v("acc"), lit(1.0)))],
    VB: [IB, arr("t", lit(2), op("lt", v("t"), lit(1)))],
    VI: [II, arr("t", lit(3), v("t")), get(IMI, lit(0))],
    VF: [IF, arr("t", lit(2), lit(1.0)), get(IMF, v("i")), cat(IF, IF)],
    MI: [IMI],
    MF: [IMF, arr("t", lit(2), IF)],
    TF: [ITF],
    REC: [rec("tuple", lit(1.0), lit(2)), rec("dict", get(IF, v("i")), v("i"))],
    ("v", REC): [arr("t", lit(2), rec("tuple", get(IF, v("t")), v("t")))],
}
TYPES = list(REPS)
UNARY = ["not", "neg", "abs", "float", "exp", "sin", "cos", "tanh"]
BINARY = ["add", "sub", "mul", "div", "mod", "pow", "min", "max", "lt", "le", "gt", "ge", "eq", "ne", "and", "or"]


def vectors(t):
    return isinstance(t, tuple)


def terms(tier):
    n = None if tier == "thorough" else 3
    for o in UNARY:
        for t in TYPES:
            for x in REPS[t]:
                yield op(o, x)
    for o in BINARY:
        for a, b in itertools.product(TYPES, repeat=2):
            if o in ("eq", "ne") and (vectors(a) or vectors(b)):
                continue  # Python's identity comparison of host objects
            for x, y in itertools.product(REPS[a][:n], REPS[b][:n]):
                yield op(o, x, y)
    for a, b in itertools.product(TYPES, repeat=2):
        for x, y in itertools.product(REPS[a][:n], REPS[b]):
            yield get(x, y)
            yield cat(x, y)
            yield let("z", x, get(v("z"), lit(0), y))
            # comprehension size
            yield arr("j", y, x)
        for x, y in itertools.product(REPS[a][:n], REPS[b][:n]):
            yield fold(lit(2), x, y)
            yield fold(y, x, v("acc"))
            yield fold(x, lit(0.0), add(v("acc"), lit(1.0)))
            yield fold(lit(2), x, get(arr("j", lit(2), y), v("k")))
            yield red(x, v("rx"), y)
            yield red(x, v("ry"), arr("j", lit(2), y))
            yield where(op("lt", SI, lit(3)), x, y)
    for a in TYPES:
        for x in REPS[a]:
            for axis in range(4):
                yield size(x, axis)
            yield arr("j j2", [lit(2), x], lit(1.0))
            yield arr("j", lit(2), x)
            for i2 in REPS["i"][:2] + REPS["f"][:1] + REPS["b"][:1]:
                yield get(x, i2, lit(1))
                yield get(x, lit(1), i2, lit(0))
            yield get(IF, x)
            yield get(IMF, lit(0), x)
            yield get(IMF, x, lit(0))
            yield get(ITF, lit(0), x, lit(1))
    for c, a, b in itertools.product(TYPES, repeat=3):
        yield where(REPS[c][-1], REPS[a][0], REPS[b][-1])
        yield red(REPS[a][0], REPS[b][-1], arr("j", lit(3), REPS[c][0]))
        yield fold(REPS[c][0], REPS[a][0], REPS[b][-1])
    # operators inside the bodies of loops, on the accumulator, the counter and elements
    for o in BINARY:
        for t in TYPES:
            for x in REPS[t][:2]:
                if o in ("eq", "ne") and vectors(t):
                    continue
                yield fold(lit(2), x, op(o, v("acc"), x))
                yield fold(lit(2), x, op(o, v("k"), v("acc")))
                yield red(x, op(o, v("rx"), v("ry")), arr("j", lit(3), x))
                yield arr("j", lit(2), op(o, x, v("j")))
                yield fold(lit(2), lit(0), op(o, v("acc"), x))
                yield fold(lit(2), lit(0.0), op(o, x, v("acc")))
                yield fold(lit(2), lit(True), op(o, x, v("acc")))
    # records of different structure
    recs = [rec("tuple", lit(1.0), lit(2)), rec("tuple", lit(2), lit(1.0)), rec("tuple", lit(1.0), lit(2), lit(3)),
            rec("dict", lit(1.0), lit(2)), rec("odd", lit(1.0), lit(2)), rec("P", lit(1.0), lit(2)),
            rec("tuple", lit(1.0), rec("tuple", lit(2), lit(3))), rec("tuple", rec("tuple", lit(1.0), lit(2)), lit(3)),
            rec("tuple", lit(1.0), II), rec("tuple", IF, lit(2)), rec("dict", lit(1.0), lit(2), lit(3)),
            rec("Q", lit(1.0), lit(2), lit(3)), rec("list", lit(1.0), lit(2))]
    for x, y in itertools.product(recs, repeat=2):
        yield where(lit(True), x, y)
        yield fold(lit(2), x, y)
        yield cat(arr("j", lit(2), x), arr("j", lit(2), y))
        yield red(x, v("rx"), arr("j", lit(2), y))
        yield red(x, y, arr("j", lit(2), x))


def cases(tier):
    seen = set()
    for t in terms(tier):
        if t in seen or host_operation(t):
            continue
        seen.add(t)
        depends = mentions_free(t, "i")
        if depends:
            t = arr("i", lit(2), t)
            if lang.sizes_depend_on_indices(t):
                continue
        yield ("typed", (t, False), "constructs")
        if has_lit(t):
            yield ("typed", (t, True), "python literals")
    yield from extrinsics()
    for name, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier):
        yield ("prog", (term, spec, va[-1:] if tier == "quick" else va, ("numpy",) if tier == "quick" else ("numpy", "torch"),
                        "var"), "accepted/" + name)


def host_operation(t):
    """Operators, indexing and sizes applied to a host tuple or dictionary are Python's, not Ein's."""
    for s in lang.subterms(t):
        if s[0] == "op" and any(x[0] == "rec" for x in s[2:]):
            return True
        if s[0] in ("get", "size", "cat") and s[1][0] == "rec":
            return True
        if s[0] == "get" and any(x[0] == "rec" for x in s[2:]):
            return True
        if s[0] == "let" and s[2][0] == "rec":
            return True
        if s[0] in ("fold", "red") and s[4 if s[0] == "fold" else 3][0] == "rec" and any(
                x[0] == "op" and any(y[0] == "v" for y in x[2:]) for x in lang.subterms(s[5 if s[0] == "fold" else 4])):
            return True
    return False


def reflected(t):
    return any(s[0] == "op" and s[1] in ("mod", "pow", "and", "or") and s[2][0] == "lit" and s[3][0] != "lit"
               for s in lang.subterms(t))


def mentions_free(t, name):
    return lang.mentions(t, {name})


def has_lit(t):
    return any(s[0] == "lit" for s in lang.subterms(t))


def typeof(t, env):
    """typeof with structures instead of bare tuple types; TypeError on ill-typed terms."""
    k = t[0]
    if k == "rec":
        kind = {"list": "tuple"}.get(t[1], t[1])
        return ("t", kind, *[typeof(a, env) for a in t[2]])
    if k == "let":
        return typeof(t[3], {**env, t[1]: typeof(t[2], env)})
    if k == "v":
        return env[t[1]]
    if k == "in":
        return runners.input_types(SPEC)[t[1]]
    if k == "lit":
        return lang.typeof(t, {}, ())
    if k == "op":
        return lang.op_type(t[1], [typeof(a, env) for a in t[2:]])
    if k == "get":
        x = typeof(t[1], env)
        for i in t[2:]:
            lang.need(isinstance(x, tuple) and x[0] == "v" and typeof(i, env) == "i", t)
            x = x[1]
        return x
    if k == "where":
        c, a, b = [typeof(x, env) for x in t[1:]]
        lang.need(c == "b" and a == b, t)
        return a
    if k == "arr":
        for s in t[2]:
            lang.need(typeof(s, env) == "i", t)
        r = typeof(t[3], {**env, **{n: "i" for n in t[1]}})
        for _ in t[1]:
            r = ("v", r)
        return r
    if k == "fold":
        _, i, acc, count, init, body, _infer = t
        lang.need(typeof(count, env) == "i", t)
        a = typeof(init, env)
        lang.need(typeof(body, {**env, i: "i", acc: a}) == a, t)
        return a
    if k == "red":
        _, x, y, init, body, vec = t
        w = typeof(vec, env)
        lang.need(isinstance(w, tuple) and w[0] == "v", t)
        a = typeof(init, env)
        lang.need(a == w[1] and typeof(body, {**env, x: a, y: a}) == a, t)
        return a
    if k == "cat":
        a, b = typeof(t[1], env), typeof(t[2], env)
        lang.need(a == b and isinstance(a, tuple) and a[0] == "v", t)
        return a
    if k == "size":
        w = typeof(t[1], env)
        for _ in range(t[2] + 1):
            lang.need(isinstance(w, tuple) and w[0] == "v", t)
            w = w[1]
        return "i"
    raise ValueError(t)


def has_pow_int(t):
    return any(s[0] == "op" and s[1] == "pow" and s[3][0] == "lit" and isinstance(s[3][1], int) for s in lang.subterms(t))


def observable(ty):
    """Records and vectors of records are observed by their fields."""
    return isinstance(ty, str) or ty[0] == "v" and observable(ty[1])


def run_typed(ctx, term, raw):
    try:
        ty = typeof(term, {})
    except TypeError:
        ty = None
    if raw and has_pow_int(term):
        return None  # integer powers are repeated multiplication: C14
    ctx.states += 1
    ctx.count("accepted" if ty is not None else "rejected")
    ins0 = runners.inputs_for(SPEC, {"n": 2})
    types = [execm.type_from_ndarray(a) for a in ins0]
    try:
        from mc.execm import with_varargs

        def body(*xs):
            y = real.build(term, {}, xs, raw)
            return real.wrap(1) if ty is not None and not observable(ty) else y

        ctx.transitions += 1
        with_varargs(types, body)
    except (TypeError, AttributeError) as e:
        if ty is not None and raw and reflected(term):
            return None  # no reflected form: Python's own TypeError
        if ty is not None:
            return f"rejected a well-typed program: {type(e).__name__}: {str(e)[:300]}"
        if isinstance(e, AttributeError) and not no_such_method(e):
            return f"raised {type(e).__name__}: {str(e)[:300]} instead of TypeError"
        ctx.traces += 1
        return None
    except Exception as e:
        return f"raised {type(e).__name__}: {str(e)[:300]} while constructing a program of type {ty}"
    if ty is None:
        return "accepted an ill-typed program"
    if not observable(ty):
        ctx.traces += 1
        return None
    if any(isinstance(s, tuple) and s[0] == "red" for s in lang.subterms(term)):
        # only typing: the operator is not associative
        for dims in VA:
            got = execm.caller(term, "numpy", raw)(*runners.inputs_for(SPEC, dict(dims)))
            r, kind = lang.rank_kind(ty)
            ctx.transitions += 1
            if got.ndim != r or execm.KIND[got.dtype.kind] != kind:
                return f"an array of rank {got.ndim} and kind {got.dtype} instead of {ty}"
        ctx.traces += 1
        return None
    return runners.run_prog(ctx, term, SPEC, VA, ("numpy", "torch", "naive"), "var", raw)


def no_such_method(e):
    """The operand's class does not have the method or attribute at all."""
    return isinstance(getattr(e, "obj", None), object) and "has no attribute" in str(e)


def extrinsics():
    from itertools import product

    kinds = [t for t in TYPES if not (isinstance(t, tuple) and (t[0] == "t" or t[1] == REC))]
    for sig in [("f",), ("i",), ("b",), (VF,), ("f", "i"), ("i", "f"), (VF, "f"), ("f", VI), (MF,)]:
        for n in range(0, 3):
            for args in product(kinds, repeat=n):
                yield ("signature", (sig, args), "signatures")


def run_signature(ctx, sig, args):
    """A declared signature of an external or decorated function is enforced."""
    from ein import ext, scalar_type
    from ein.frontend.functions import typed_function
    from ein.phi.type_system import Vector

    def ein_type(t):
        return scalar_type({"f": float, "i": int, "b": bool}[t]) if isinstance(t, str) else Vector(ein_type(t[1]))

    arrays = dict(zip(runners.input_types(SPEC), runners.inputs_for(SPEC, {"n": 2})))
    f = ext(lambda *a: 1.0, (tuple(map(ein_type, sig)), ein_type("f")))
    g = typed_function(*map(ein_type, sig))(lambda *a: real.wrap(1.0))
    ctx.states += 1
    for what, call in (("ext", lambda: f(*[real.wrap(arrays[a]) for a in args])),
                       ("function", lambda: g.numpy(*[arrays[a] for a in args]))):
        ctx.transitions += 1
        try:
            call()
            ok = True
        except TypeError:
            ok = False
        except Exception as e:
            return f"[{what}] raised {type(e).__name__}: {str(e)[:200]} for {args} against {sig}"
        if ok != (tuple(sig) == tuple(args)):
            return f"[{what}] {'accepted' if ok else 'rejected'} {args} against {sig}"
    ctx.traces += 1
    return None
