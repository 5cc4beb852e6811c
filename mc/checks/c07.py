"""Size inference: a program with sizes omitted is the program with the direct extents given, or ValueError."""
import itertools

from mc import execm, fam, famfold, lang, real, runners
from mc.fam import (add, arr, arri, cat, fold, get, inp, let, lit, mul, op, proj, rec, red, size, sub, tofloat, v, vals,
                    where)

from ein import scalar_type, with_varargs
from ein.phi.type_system import Vector as vector_type

# a(n) b(s) m(s,n) q(i n) r(i s) t(n,s,n)
SPEC = (("f", "n"), ("f", "s"), ("f", "sn"), ("i", "n"), ("i", "s"), ("f", "nsn"))
A, B, M, Q, R, T = (inp(k) for k in range(6))
N, S = size(A), size(B)
VA = vals("ns", (2, 3), (3, 2), (3, 3), (1, 2), (0, 2), (2, 0))


def foldi(count, init, body, i="k", acc="acc"):
    return fold(count, init, body, i, acc, infer=True)


def vectors(i):
    """(vector term, extent term, float elements?) in the scope of an outer index or counter i."""
    yield A, N
    yield B, S
    yield get(M, i), N
    yield get(M, lit(0)), N
    yield get(T, lit(1), i), N
    yield get(T, i), S  # elements are vectors
    yield M, S
    yield cat(A, B), add(N, S)
    yield cat(get(M, i), B), add(N, S)
    yield arri("t", N, mul(get(A, v("t")), lit(2.0))), N
    yield arri("t", N, mul(get(A, v("t")), get(M, i, v("t")))), N
    yield arr("t", lit(2), tofloat(add(v("t"), i))), lit(2)
    yield arr("t", add(S, lit(1)), get(A, sub(v("t"), lit(1)))), add(S, lit(1))
    yield arri("t", S, get(M, v("t"), i)), S
    yield arri("t u", [S, N], get(M, v("t"), v("u"))), S
    yield where(op("lt", i, lit(1)), A, get(M, i)), N
    yield fold(lit(2), A, arri("t", N, add(get(v("w"), v("t")), lit(1.0))), "c", "w"), N
    yield fold(lit(2), get(M, i), arri("t", N, mul(get(v("w"), v("t")), get(A, v("t")))), "c", "w"), N
    yield proj(rec("tuple", A, B), 1), S
    yield proj(rec("dict", get(M, i), B), 0), N
    yield proj(get(arr("t", lit(2), rec("tuple", A, B)), i), 1), S
    yield red(arr("u", N, lit(0.0)), arri("t", N, add(get(v("rx"), v("t")), get(v("ry"), v("t")))), M), N
    yield get(cat(M, M), i), N
    yield get(arri("t u", [N, S], get(M, v("u"), v("t"))), i), S


def elem(x):
    """A float out of an element that may be a vector."""
    return lambda ty: x if ty == "f" else get(x, lit(0))


TYPES = runners.input_types(SPEC)


def scalar(vec, j, env):
    """vec[j] down to a float."""
    x = get(vec, j)
    ty = lang.typeof(x, env, TYPES)
    while ty != "f":
        x, ty = get(x, lit(0)), ty[1]
    return x


def uses(w, j, env):
    """Float bodies that read w at j: directly, directly and otherwise, only otherwise, in inner scopes."""
    d = scalar(w, j, env)
    s1, s2 = scalar(w, add(j, lit(1)), env), scalar(w, sub(size(w), j), env)
    yield d
    yield add(d, tofloat(j))
    yield mul(d, s1)
    yield sub(s2, d)
    yield s1
    yield s2
    yield tofloat(j)
    yield scalar(w, get(Q, j), env)
    yield mul(scalar(w, get(Q, j), env), d)
    yield where(op("lt", j, lit(1)), d, lit(0.0))
    yield fold(lit(2), lit(0.0), add(v("z"), mul(d, lit(0.5))), "y", "z")
    yield fold(lit(2), lit(0.0), add(v("z"), scalar(w, add(j, v("y")), {**env, "y": "i"})), "y", "z")
    yield get(arri("e", size(w), scalar(w, v("e"), {**env, "e": "i"})), j)
    yield get(arri("e", size(w), add(scalar(w, v("e"), {**env, "e": "i"}), d)), sub(j, lit(1)))
    yield let("h", w, add(scalar(v("h"), j, {**env, "h": lang.typeof(w, env, TYPES)}), lit(1.0)))


def cases(tier):
    for term, fam_ in templates(tier):
        yield ("infer", (term, SPEC, VA), fam_)
    for term in bound_extents(tier):
        yield ("infer", (term, SPEC, VA), "extents of inner loops")
    for term, s in explicit(tier):
        yield ("infer", (term, SPEC, VA), "given")
    for name, term, spec, va in auto(tier):
        yield ("infer", (term, spec, va), name)
    yield from slices(tier)


def templates(tier):
    k, acc = v("k"), v("acc")
    outer = [
        # (description, scope, name of the index in scope, wrapper of a float body)
        ("alone", {}, lit(0), lambda x: x),
        ("comprehension", {"i": "i"}, v("i"), lambda x: arr("i", S, x)),
        ("fold", {"k": "i", "acc": "f"}, k, lambda x: fold(lit(2), lit(0.0), add(acc, x))),
    ]
    for what, env, i, wrap_ in outer:
        for w, n in vectors(i):
            env2 = {**env, "j": "i"}
            for body in uses(w, v("j"), env2):
                # an inner comprehension, observed at a position and by its size
                inner = arri("j", n, body)
                if what == "alone":
                    yield inner, "alone"
                    yield foldi(n, lit(0.5), add(mul(v("g"), lit(0.5)), body), "j", "g"), "fold alone"
                else:
                    yield wrap_(get(inner, lit(1))), what
                    yield wrap_(tofloat(size(inner))), what + " size"
                    yield wrap_(foldi(n, lit(0.5), add(mul(v("g"), lit(0.5)), body), "j", "g")), what + " of folds"
                    if what == "comprehension":
                        yield arr("i", S, inner), what
                if tier == "thorough" and what == "comprehension":
                    yield arri("i", S, mul(get(B, i), get(inner, lit(1)))), "outer inferred"
    # two indices of one comprehension
    i, j = v("i"), v("j")
    prods = [get(M, i, j), get(M, j, i), mul(get(A, j), get(B, i)), mul(get(A, i), get(B, j)), mul(get(M, i, j), get(A, j)),
             mul(get(M, i, j), mul(get(B, i), get(A, j))), get(M, i, add(j, lit(1))), get(M, add(i, lit(1)), j),
             get(M, i, get(Q, j)), get(M, get(R, i), j), get(M, get(R, i), get(Q, j)), get(T, j, i, j), get(T, i, lit(0), j),
             get(T, lit(0), i, j), get(T, j, i, lit(1)), mul(get(A, i), get(A, j)), mul(get(M, i, j), get(M, i, lit(0))),
             get(A, add(i, j)), mul(get(A, add(i, j)), get(B, i)), get(get(M, i), j), get(cat(A, B), i),
             mul(get(cat(A, B), i), get(B, j)), get(arri("t", S, get(M, v("t"), j)), i)]
    ext = {"i": [], "j": []}
    for p in prods:
        for n1, n2 in itertools.product((N, S, add(N, S)), repeat=2):
            yield arri("i j", [n1, n2], p), "pairs"
            yield arri("i", n1, arri("j", n2, p)), "pairs"
            yield foldi(n1, lit(0.0), add(v("a1"), foldi(n2, lit(0.0), add(v("a2"), p), "j", "a2")), "i", "a1"), "pairs"
            yield arri("i", n1, foldi(n2, lit(0.0), add(v("a2"), p), "j", "a2")), "pairs"
            yield arri("j", n2, foldi(n1, lit(0.0), add(v("a2"), p), "i", "a2")), "pairs"
            yield foldi(n1, lit(0.0), add(v("a1"), get(arri("j", n2, p), lit(0))), "i", "a1"), "pairs"
    # folds over vector accumulators: the accumulator's size is not known outside of the loop
    w = v("acc")
    for body in (arri("t", N, add(get(w, v("t")), get(A, v("t")))), arri("t", N, add(get(w, v("t")), tofloat(k))),
                 arri("t", N, mul(get(w, v("t")), get(w, k))), arri("t", N, get(A, k)), arri("t", N, get(w, k)),
                 arri("t", N, get(w, add(v("t"), k))), arri("t", N, add(get(w, v("t")), get(Q, k)) if False else
                                                           add(get(w, v("t")), tofloat(get(Q, k))))):
        for init in (A, arr("u", N, lit(1.0)), get(M, lit(0))):
            yield foldi(N, init, body), "vector accumulators"
            yield fold(lit(2), init, body), "vector accumulators"
            yield arr("i", S, foldi(N, init, body)), "vector accumulators"
            yield arr("i", S, foldi(N, get(M, v("i")), body)), "vector accumulators"
    for m in (M, arri("t u", [S, N], get(M, v("t"), v("u")))):
        yield foldi(S, A, arri("t", N, add(get(w, v("t")), get(m, k, v("t"))))), "vector accumulators"
        yield foldi(S, m, arri("t u", [S, N], add(get(w, v("t"), v("u")), get(w, k, v("u"))))), "vector accumulators"
        yield foldi(S, m, arri("t u", [S, N], add(get(w, v("t"), v("u")), get(B, k)))), "vector accumulators"


def bound_extents(tier):
    """Arrays indexed directly in an inner loop whose own extent depends on what that loop binds. (The loops make one
    step, so that the extents still agree with the others.)"""
    j, y, z, e = v("j"), v("y"), v("z"), v("e")

    def scalars():
        for w in (arr("e", add(N, y), get(A, e)), cat(A, arr("e", y, lit(1.0))), cat(arr("e", y, lit(1.0)), A),
                  arr("e", sub(N, mul(y, lit(2))), tofloat(e)), get(arr("c e", [lit(2), add(N, y)], get(A, e)), lit(1)),
                  get(arr("c", lit(2), arr("e", add(y, N), get(A, e))), y)):
            yield lambda more, w=w: fold(lit(1), lit(0.5), add(z, more(get(w, j))), "y", "z")
            yield lambda more, w=w: get(fold(lit(1), A, arr("t", N, add(get(z, v("t")), more(get(w, j)))), "y", "z"), lit(1))
            yield lambda more, w=w: fold(lit(1), lit(0.5), fold(lit(1), z, add(v("z2"), more(get(w, j))), "y2", "z2"), "y", "z")
            yield lambda more, w=w: fold(lit(1), lit(0.5), get(arr("t", lit(2), add(z, more(get(w, j)))), lit(1)), "y", "z")
        # the accumulator itself, and vectors made of it
        for w in (z, cat(z, arr("e", y, lit(1.0))), arr("e", size(z), mul(get(z, e), lit(2.0))), arr("e", add(size(z), y), get(z, e)),
                  where(op("lt", y, lit(1)), z, A)):
            for init in (A, arr("u", N, lit(1.0)), get(M, lit(0))):
                yield lambda more, w=w, init=init: get(
                    fold(lit(1), init, arr("t", N, add(get(z, v("t")), more(get(w, j)))), "y", "z"), lit(0))
        # operands of a reduction
        for w in (v("rx"), v("ry"), arr("e", size(v("rx")), get(v("ry"), e))):
            yield lambda more, w=w: get(red(arr("u", N, lit(0.0)), arr("t", N, add(sub(add(get(v("rx"), v("t")), get(v("ry"), v("t"))),
                                                                                  get(w, j)), get(w, j))), M), lit(0))

    # what the loop whose count is inferred binds itself
    g = v("g")
    for w in (arr("e", add(N, j), get(A, e)), cat(A, arr("e", j, lit(1.0))), arr("e", sub(N, j), tofloat(e))):
        for body in (get(w, j), mul(get(w, j), get(A, j)), add(get(A, j), get(w, j)), add(get(A, add(j, lit(1))), get(w, j))):
            yield foldi(N, lit(0.0), add(g, body), "j", "g")
            yield arr("i", S, foldi(N, get(B, v("i")), add(mul(g, lit(0.5)), body), "j", "g"))
            yield arr("i", S, foldi(N, lit(0.0), add(g, mul(get(B, v("i")), body)), "j", "g"))
    for w in (g, cat(g, arr("e", j, lit(1.0))), arr("e", add(size(g), j), get(g, e)), arr("e", size(g), mul(get(g, e), lit(2.0)))):
        for body in (get(w, j), mul(get(w, j), get(A, j)), add(get(A, j), get(w, j))):
            for init in (A, get(M, lit(0))):
                yield foldi(N, init, arr("t", N, add(get(g, v("t")), body)), "j", "g")
                yield arr("i", S, foldi(N, get(M, v("i")), arr("t", N, add(get(g, v("t")), body)), "j", "g"))

    mores = [lambda d: d, lambda d: mul(d, get(A, j)), lambda d: add(get(A, j), d), lambda d: sub(tofloat(get(Q, j)), d),
             lambda d: where(op("lt", j, lit(1)), d, get(A, add(j, lit(1)))), lambda d: add(d, get(M, lit(0), j))]
    afters = [lambda b: b, lambda b: add(b, get(A, j)), lambda b: mul(get(A, j), b), lambda b: add(b, get(A, add(j, lit(1))))]
    for s in scalars():
        for k, more in enumerate(mores):
            for after in afters if k == 0 or tier == "thorough" else afters[:1]:
                body = after(s(more))
                yield arri("j", N, body)
                yield foldi(N, lit(0.0), add(v("g"), body), "j", "g")
                yield arr("i", S, foldi(N, get(B, v("i")), add(mul(v("g"), lit(0.5)), body), "j", "g"))
                yield arr("i", S, arri("j", N, mul(get(B, v("i")), body)))


def explicit(tier):
    """Sizes that are given are used, whatever is indexed."""
    i = v("i")
    for n in (lit(0), lit(1), lit(2), lit(5), add(N, lit(1)), sub(N, N), S, mul(N, S), get(R, lit(0)) if False else N):
        for body in (get(A, i), mul(get(A, i), get(B, i)), get(M, i, i), get(cat(A, A), i), add(get(A, i), get(A, add(i, lit(1))))):
            yield arr("i", n, body), n
            yield fold(n, lit(0.0), add(v("acc"), body), "i", "acc"), n
            yield arr("j", lit(2), arr("i", n, mul(body, get(B, v("j"))))), n
            yield arr("i j", [n, S], mul(body, get(B, v("j")))), n
            yield arr("j i", [N, n], mul(body, get(B, v("j")))), n
            yield red(lit(0.0), add(v("rx"), v("ry")), arr("i", n, body)), n
            yield arr("j", S, fold(n, get(B, v("j")), add(v("acc"), body), "i", "acc")), n


AUTO = {**{k: fam.COMPREHENSION_FAMILIES[k] for k in ("pairs", "triples", "inner", "concat", "generic")},
        **{k: fam.INDEX_FAMILIES[k] for k in ("two", "targets")},
        **{k: famfold.FOLD_FAMILIES[k] for k in ("batched", "contractions", "nested-contractions", "vectors", "records")}}


def auto(tier):
    """The programs of other families with the sizes they give left out wherever something is indexed directly."""
    seen = set()
    for name, term, spec, va in fam.progs(AUTO, tier):
        term = lang.apart(term)
        t = omit(term)
        if t != term:
            yield "omitted/" + name, t, spec, va if tier == "thorough" else va[:2]


def omit(t):
    if not isinstance(t, tuple):
        return t
    t = tuple(omit(x) for x in t)
    if t and t[0] == "arr" and all(any(True for _ in lang.direct_targets(n, t[3])) for n in t[1]):
        return t[:4] + (True,)
    if t and t[0] == "fold" and any(True for _ in lang.direct_targets(t[1], t[5])):
        return t[:6] + (True,)
    return t


def verdict(t):
    """'accept', 'reject' or 'either' for the construction of a term with omitted sizes."""
    out = "accept"
    for s in lang.subterms(lang.without_lets(t)):
        if s[0] == "arr" and s[4]:
            names, body, own = s[1], s[3], set(s[1])
        elif s[0] == "fold" and s[6]:
            names, body, own = (s[1],), s[5], {s[1], s[2]}
        else:
            continue
        for n in names:
            targets = list(lang.direct_targets(n, body))
            if not targets:
                return "reject"
            if not any(not lang.mentions(x, own | bound) for x, bound, _ in targets):
                out = "either"
    return out


def run_infer(ctx, term, spec, valuations):
    term = lang.apart(term)
    want_build = verdict(term)
    ctx.count("construction " + want_build)
    ty = lang.typeof(term, {}, runners.input_types(spec))
    _, kind = lang.rank_kind(ty)
    ctx.transitions += 1
    try:
        with_varargs([ein_type(t) for t in runners.input_types(spec)], real.program(term))
    except ValueError as e:
        ctx.traces += 1
        return f"rejected: {str(e)[:300]}" if want_build == "accept" else None
    if want_build == "reject":
        return "a size that nothing gives was accepted"
    call = execm.caller(term, "numpy")
    naive = execm.caller(term, "naive")
    for dims in valuations:
        ins = runners.inputs_for(spec, dict(dims))
        lang.EXTENTS = ex = lang.Extents()
        try:
            want = runners.model_value(term, ins)
        except lang.Unspecified:
            want = None
        finally:
            lang.EXTENTS = None
        if want is None or not ex.agree():
            ctx.outside += 1
            continue
        ctx.states += 1
        for be, f in (("numpy", call), ("naive", naive)):
            if be == "naive" and runners.naive_ambiguous(want, ins):
                continue
            ctx.transitions += 1
            try:
                what = execm.mismatch(f(*ins), want, kind)
            except Exception as e:
                what = f"raised {type(e).__name__}: {str(e)[:200]}"
            if what is not None:
                return f"[{be}] {what}; dims {dims}"
    ctx.traces += 1
    return None


def ein_type(t):
    return scalar_type({"f": float, "i": int, "b": bool}[t]) if isinstance(t, str) else vector_type(ein_type(t[1]))


def slices(tier):
    """Empty slices and the library's loops with the count omitted."""
    for k, item in enumerate(itertools.product((":", 0, 1, "q"), repeat=3)):
        for depth in (1, 2, 3):
            yield ("slice", (item[:depth], VA if depth == 3 else VA[:4]), "slices")


def run_slice(ctx, item, valuations):
    """t[:, 1, :] is the comprehension over the sliced axes."""
    from ein import function

    def real_item(t, q):
        it = tuple(slice(None) if x == ":" else q[0] if x == "q" else x for x in item)
        return t[it if len(it) > 1 else it[0]]

    names = [f"s{n}" for n in range(len(item))]
    f = function(lambda t, q: real_item(t, q))
    for dims in valuations:
        d = dict(dims)
        t = runners.inputs_for((("f", "nsn"), ("i", "x")), {**d, "x": 1})
        if any(e == 0 for e in t[0].shape):
            continue
        clamp = [max(0, min(t[0].shape[n] - 1, int(t[1][0]))) for n in range(3)]
        want = t[0][tuple(slice(None) if x == ":" else clamp[n] if x == "q" else min(x, t[0].shape[n] - 1)
                          for n, x in enumerate(item))]
        ctx.states += 1
        ctx.transitions += 1
        what = execm.mismatch(f.numpy(*t), execm.to_model(want), "f")
        if what is not None:
            return f"{what}; dims {d}"
    ctx.traces += 1
    return None
