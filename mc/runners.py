"""Runners shared by the checks."""
import numpy

from . import execm, gen, lang, real

RTOL = 1e-9


def inputs_for(spec, dims, salt=0):
    """spec: ((kind, dimension names), ...); dims: name -> extent."""
    return [gen.data(k, tuple(dims[d] for d in ds), salt + 1 + j) for j, (k, ds) in enumerate(spec)]


def input_types(spec):
    out = []
    for k, ds in spec:
        t = k
        for _ in ds:
            t = ("v", t)
        out.append(t)
    return tuple(out)


def model_value(term, ins):
    return lang.evaluate(term, {}, [execm.to_model(a) for a in ins])


def top_fields(ty, term):
    """A record result is observed field by field."""
    if isinstance(ty, tuple) and ty[0] == "t":
        for k, t in enumerate(ty[1:]):
            yield from top_fields(t, ("proj", term, k))
    else:
        yield ty, term


def run_prog(ctx, term, spec, valuations, backends=("numpy",), mode="var", raw=False):
    """Every valuation of the dimensions, every backend: the implementation returns the model's value."""
    types = input_types(spec)
    ty = lang.typeof(term, {}, types)
    _, kind = lang.rank_kind(ty)
    calls = {}
    for dims in valuations:
        dims = dict(dims)
        ins = inputs_for(spec, dims)
        try:
            want = model_value(term, ins)
        except lang.Unspecified:
            ctx.outside += 1
            continue
        ctx.states += 1
        for be in backends:
            if be == "naive" and naive_ambiguous(want, ins):
                continue
            what = None
            try:
                if mode == "var":
                    if be not in calls:
                        calls[be] = execm.caller(term, be, raw)
                    got = calls[be](*ins)
                else:
                    got = execm.eval_const(term, be, ins, raw)
                what = execm.mismatch(got, want, kind, RTOL)
            except execm.Refused:
                ctx.refused += 1
                continue
            except Exception as e:
                what = f"raised {type(e).__name__}: {str(e)[:300]}"
            ctx.transitions += 1
            if what is not None:
                return f"[{be}, {mode}] {what}; dims {dims}"
    ctx.traces += 1
    return None


def naive_ambiguous(want, ins):
    """The reference interpreter has no shape or kind for the elements of an empty comprehension."""
    return any(a.size == 0 for a in ins) or not all(lang.shape_of(want))


def top_fields_of(term, spec):
    return top_fields(lang.typeof(term, {}, input_types(spec)), term)
