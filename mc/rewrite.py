"""Meaning-preserving rewrites of terms whose binders have names of their own."""
from . import lang


def children(t):
    """(position in the tuple path, child, names bound in it)."""
    k = t[0]
    if k in ("op", "ext", "extg", "extv"):
        for n in range(2, len(t)):
            yield (n,), t[n], ()
    elif k in ("where", "get", "cat"):
        for n in range(1, len(t)):
            yield (n,), t[n], ()
    elif k == "arr":
        for n, s in enumerate(t[2]):
            yield (2, n), s, ()
        yield (3,), t[3], t[1]
    elif k == "fold":
        yield (3,), t[3], ()
        yield (4,), t[4], ()
        yield (5,), t[5], t[1:3]
    elif k == "red":
        yield (3,), t[3], ()
        yield (4,), t[4], t[1:3]
        yield (5,), t[5], ()
    elif k in ("size", "proj"):
        yield (1,), t[1], ()
    elif k == "rec":
        for n, s in enumerate(t[2]):
            yield (2, n), s, ()
    elif k == "let":
        yield (2,), t[2], ()
        yield (3,), t[3], (t[1],)


def positions(t, path=(), scope=()):
    """(path, subterm, enclosing (path, names bound)) of every subterm, outermost first."""
    yield path, t, scope
    for p, c, names in children(t):
        inner = scope + ((path + p, names),)
        yield from positions(c, path + p, inner)


def at(t, path):
    for n in path:
        t = t[n]
    return t


def put(t, path, new):
    if not path:
        return new
    n = path[0]
    return t[:n] + (put(t[n], path[1:], new),) + t[n + 1:]


def free(t):
    k = t[0]
    if k == "v":
        return {t[1]}
    out = set()
    for _, c, names in children(t):
        out |= free(c) - set(names)
    return out


def outermost(scope, names):
    """The path of the outermost point of the scope at which all the names are bound."""
    best = ()
    for path, bound in scope:
        if set(bound) & names:
            best = path
    return best


def replace_all(t, s, new):
    if t == s:
        return new
    if not isinstance(t, tuple):
        return t
    return tuple(replace_all(x, s, new) for x in t)


def named(t, path, s, scope, everywhere, name="shared"):
    """s bound by a let as far out as its variables allow; one or all occurrences of it replaced."""
    out = outermost(scope, free(s))
    whole = at(t, out)
    if everywhere:
        body = replace_all(whole, s, ("v", name))
    else:
        body = put(whole, path[len(out):], ("v", name))
    return put(t, out, ("let", name, s, body))


def named_here(t, path, s, name="shared"):
    return put(t, path, ("let", name, s, ("v", name)))


def hoisted(t, path, s, scope, types, name="table"):
    """s computed for all values of the indices of the innermost loop around it first, then looked up."""
    names = free(s)
    for n in range(len(scope) - 1, -1, -1):
        p, bound = scope[n]
        if not bound or not set(bound) & names:
            continue
        loop = at(t, p[:-1])
        if loop[0] == "arr":
            used = [(x, loop[2][m]) for m, x in enumerate(loop[1]) if x in names]
        elif loop[0] == "fold" and loop[2] not in names:
            used = [(loop[1], loop[3])]
        else:
            return None
        # what is bound between the loop and s cannot be used in s
        if any(set(b) & names for _, b in scope[n + 1:]):
            return None
        fresh = [x + "_" for x, _ in used]
        moved = s
        for (x, _), y in zip(used, fresh):
            moved = replace_all(moved, ("v", x), ("v", y))
        table = ("arr", tuple(fresh), tuple(z for _, z in used), moved, False)
        inner = put(loop, path[len(p) - 1:], ("get", ("v", name), *[("v", x) for x, _ in used]))
        return put(t, p[:-1], ("let", name, lang.apart(table), inner))
    return None


def expanded(t, path, s, rank, name="eta"):
    """A vector as the comprehension of its own elements."""
    if rank < 1:
        return None
    names = tuple(f"{name}{n}" for n in range(rank))
    return put(t, path, ("let", name, s, ("arr", names, tuple(("size", ("v", name), n) for n in range(rank)),
                                          ("get", ("v", name), *[("v", n) for n in names]), False)))
