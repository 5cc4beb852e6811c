"""Rewrites: every single rewrite of every program, at every position, gives the value of the program.

Rewrites: name a subterm (one or all of its occurrences) as far out as possible, or in place; tabulate it outside of the
loop around it; expand a vector into the comprehension of its elements; evaluate a closed subterm first and wrap the
result; name two subterms in either order; build a named subterm anew at each use.
"""
import numpy

from mc import execm, fam, famfold, lang, real, rewrite, runners
from mc.fam import add, arr, arri, cat, fold, get, inp, let, lit, mn, mul, mx, op, proj, rec, red, size, sub, tofloat, v, where
from ein import wrap

SPEC = (("f", "n"), ("f", "s"), ("f", "ns"), ("i", "n"))
A, C, M, Q = (inp(n) for n in range(4))
N, S = size(A), size(C)
i, j, k = v("i"), v("j"), v("k")
VA = tuple((("n", n), ("s", s)) for n, s in ((3, 2), (2, 3), (2, 2), (1, 3), (3, 1), (0, 2), (2, 0)))


def loops():
    """Terms with binders of their own, that are used inside of one another."""
    yield arr("i", N, mul(get(A, i), lit(0.5)))
    yield arr("i", N, sub(get(A, sub(sub(N, lit(1)), i)), lit(1.0)))
    yield arr("i", N, fold(S, get(A, i), sub(mul(v("acc"), lit(0.5)), get(M, i, k)), "k", "acc"))
    yield arr("i", N, fold(S, lit(0.0), add(v("acc"), mul(get(M, i, k), get(C, k))), "k", "acc"))
    yield fold(S, A, arr("i", N, sub(get(M, i, k), mul(get(v("acc"), i), lit(0.5)))), "k", "acc")
    yield arr("i", N, red(lit(1.0), mul(v("rx"), v("ry")), arr("j", S, get(M, i, j))))
    yield arr("i", N, proj(fold(S, rec("tuple", get(A, i), lit(1.0)), rec("tuple", proj(v("acc"), 1), add(proj(v("acc"), 0), get(C, k))), "k", "acc"), 0))
    yield arr("i", N, get(A, get(Q, i)))
    yield arr("i", N, tofloat(get(Q, i)))


def uses(x):
    """Programs using a vector of n numbers inside of loops over itself."""
    yield arr("i", N, mul(get(x, i), get(x, sub(i, lit(1)))))
    yield arr("i j", [N, N], sub(get(x, i), mul(get(x, j), lit(0.5))))
    yield arr("i", N, fold(N, get(x, i), sub(mul(v("acc"), lit(0.5)), get(x, k)), "k", "acc"))
    yield fold(N, x, arr("i", N, add(get(v("acc"), sub(sub(N, lit(1)), i)), mul(get(x, i), get(x, k)))), "k", "acc")
    yield arr("i", N, fold(N, lit(0.0), add(v("acc"), mul(get(x, k), get(x, i))), "k", "acc"))
    yield arr("i", N, red(lit(0.0), add(v("rx"), v("ry")), arr("j", N, mul(get(x, j), get(x, i)))))
    yield red(lit(1.0), mul(v("rx"), v("ry")), arr("i", N, fold(N, get(x, i), sub(get(x, k), v("acc")), "k", "acc")))
    yield cat(x, arr("i", N, get(x, sub(sub(N, lit(1)), i))))
    yield arr("i", size(x), where(op("lt", get(x, i), lit(0.0)), get(x, add(i, lit(1))), get(x, i)))
    yield arr("i", N, get(arr("j", N, add(get(x, j), get(x, i))), get(Q, i)))
    yield arr("i", N, proj(fold(size(x), rec("tuple", lit(0.0), get(x, i)), rec("tuple", add(proj(v("acc"), 1), get(x, k)), mul(proj(v("acc"), 0), get(x, i))), "k", "acc"), 1))


def bases(tier):
    """(term, spec, valuations, family)"""
    for x in loops():
        for u in uses(x):
            # records are observed by fields
            for _, t in runners.top_fields_of(u, SPEC):
                yield t, SPEC, VA, "loops in loops"
    for x in loops():
        for y in loops():
            for u in uses(arr("i", N, add(get(x, i), get(y, i)))):
                for _, t in runners.top_fields_of(u, SPEC):
                    yield t, SPEC, VA[:3], "two loops in loops"


def rewrites(t, types, tier):
    """(rewritten term, what was done); the binders of t have names of their own."""
    seen = set()
    for path, s, scope in rewrite.positions(t):
        if s[0] in ("lit", "v", "in"):
            if s[0] == "in" and path:
                ty = types[s[1]]
                r = rank(ty)
                e = rewrite.expanded(t, path, s, r)
                if e is not None:
                    yield e, "expanded"
            continue
        if not path:
            continue
        ty = typed(t, path, s, scope, types)
        yield rewrite.named_here(t, path, s), "named in place"
        yield rewrite.named(t, path, s, scope, False), "named"
        if s not in seen:
            seen.add(s)
            every = rewrite.named(t, path, s, scope, True)
            if every != rewrite.named(t, path, s, scope, False):
                yield every, "all named"
        h = rewrite.hoisted(t, path, s, scope, types)
        if h is not None:
            yield h, "tabulated"
        if ty is not None:
            e = rewrite.expanded(t, path, s, rank(ty))
            if e is not None:
                yield e, "expanded"


def rank(ty):
    n = 0
    while isinstance(ty, tuple) and ty[0] == "v":
        ty, n = ty[1], n + 1
    return n


def typed(t, path, s, scope, types):
    """The type of a subterm, if it is a vector of scalars or records."""
    env = {}
    for p, names in scope:
        if not names:
            continue
        loop = rewrite.at(t, p[:-1])
        if loop[0] == "arr":
            env.update({n: "i" for n in names})
        elif loop[0] == "fold":
            env[loop[1]] = "i"
            env[loop[2]] = lang.typeof(loop[4], env, types)
        elif loop[0] == "red":
            ty = lang.typeof(loop[3], env, types)
            env.update({n: ty for n in names})
        elif loop[0] == "let":
            env[loop[1]] = lang.typeof(loop[2], env, types)
    return lang.typeof(s, env, types)


def closed(t):
    for path, s, scope in rewrite.positions(t):
        if path and s[0] not in ("lit", "in", "v") and not rewrite.free(s):
            yield path, s


def usable(t, types):
    if lang.sizes_depend_on_indices(t):
        return False
    try:
        lang.typeof(t, {}, types)
    except TypeError:
        return False
    return True


def cases(tier):
    thorough = tier == "thorough"
    n = 0
    for t, spec, va, name in bases(tier):
        t = lang.apart(t)
        types = runners.input_types(spec)
        if not usable(t, types):
            continue
        two = name == "two loops in loops"
        for r, what in rewrites(t, types, tier):
            n += 1
            if two and not thorough and (what in ("named in place", "expanded") or n % 11):
                continue
            if not usable(r, types):
                continue
            vas = va if thorough else (va[n % len(va)],)
            yield ("prog", (r, spec, vas, ("numpy",), "var"), name + ": " + what)
            if thorough or n % 10 == 0:
                yield ("prog", (r, spec, va[:1], ("torch", "naive"), "const"), name + ": " + what)
            if n % (50 if thorough else 500) == 0:
                yield ("prog", (r, spec, va[:1], ("jax",), "var"), name + ": " + what)
        if not two or thorough:
            for path, s in closed(t):
                n += 1
                yield ("first", (t, path, spec, va if thorough else (va[n % len(va)], va[0]), "numpy"), name + ": evaluated first")
            found = [(p, s) for p, s in closed(t) if s[0] in ("arr", "fold", "red", "cat")]
            for x in range(len(found)):
                for y in range(len(found)):
                    (p, s), (q, u) = found[x], found[y]
                    if x != y and p != q[:len(p)] and q != p[:len(q)] and s != u:
                        r = rewrite.put(rewrite.put(t, p, v("first")), q, v("second"))
                        yield ("prog", (let("first", s, let("second", u, r)), spec, (va[n % len(va)],), ("numpy",), "var"), name + ": two named")
    seen = {}
    for fname, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier):
        m = seen[fname] = seen.get(fname, 0) + 1
        if not thorough and m % 9:
            continue
        t = lang.apart(term)
        types = runners.input_types(spec)
        if not usable(t, types):
            continue
        for r, what in rewrites(t, types, tier):
            n += 1
            if not thorough and n % 3 and what in ("named in place", "named"):
                continue
            if not usable(r, types):
                continue
            yield ("prog", (r, spec, (va[n % len(va)],), ("numpy",), "var"), fname + ": " + what)


from mc.runners import run_prog  # noqa: E402, F401


def run_first(ctx, t, path, spec, valuations, be):
    """A closed subterm is evaluated, and its value wrapped in its place."""
    s = rewrite.at(t, path)
    types = runners.input_types(spec)
    ty = lang.typeof(s, {}, types)
    kind = lang.rank_kind(lang.typeof(t, {}, types))[1]
    whole = rewrite.put(t, path, ("in", len(spec)))
    for dims in valuations:
        ins = runners.inputs_for(spec, dict(dims))
        try:
            want = runners.model_value(t, ins)
        except lang.Unspecified:
            ctx.outside += 1
            continue
        ctx.states += 1
        part = real.build(s, {}, [wrap(a) for a in ins])
        if isinstance(part, (tuple, list, dict)) or not hasattr(part, "eval"):
            return None  # a record: evaluated by fields elsewhere
        try:
            value = part.eval(backend=be)
        except TypeError:
            return f"the part does not evaluate: {ty}"
        got = wrap(real.build(whole, {}, [wrap(a) for a in ins] + [wrap(value)])).eval(backend=be)
        ctx.transitions += 1
        what = execm.mismatch(got, want, kind, runners.RTOL)
        if what is not None:
            return f"[{be}] the part at {path} evaluated first: {what}; dims {dims}"
    ctx.traces += 1
    return None
