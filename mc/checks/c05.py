"""Backends: every program of the families gives the model's value (shape, kind, elements) on every backend."""
from mc import fam, famfold
from mc.runners import run_prog  # noqa: F401

LARGE = {"indexing/own", "indexing/extents", "indexing/carried", "folds/resized", "folds/contraction-algebra",
         "comprehensions/pairs", "comprehensions/inner", "comprehensions/iota", "comprehensions/generic",
         "indexing/chains", "indexing/two", "folds/steps", "folds/kinds", "folds/batched", "folds/contractions",
         "folds/nested-contractions", "folds/shifted-contractions", "folds/vectors", "folds/records",
         "folds/folds-in-folds"}


def cases(tier):
    seen = {}
    for name, term, spec, va in fam.progs(famfold.ALL_FAMILIES, tier):
        k = seen[name] = seen.get(name, 0) + 1
        if tier == "thorough":
            backends = ("numpy", "torch", "naive") + (() if name in famfold.NOT_ON_JAX else ("jax",))
            yield ("prog", (term, spec, va, backends, "var"), name)
            continue
        # quick: every program on Torch at two valuations, taken in turn; JAX, which compiles anew for every program and
        # shape, at one, and on every tenth program of the families in LARGE and every second one of the others
        a, b = va[k % len(va)], va[(k + 1) % len(va)]
        jax = () if name in famfold.NOT_ON_JAX or k % (10 if name in LARGE else 2) else ("jax",)
        # (NumPy runs all of them in the checks of C01 to C04)
        numpy = () if name in LARGE and k % 4 else ("numpy",)
        yield ("prog", (term, spec, (a,), numpy + ("torch", "naive") + jax, "var"), name)
        if b != a and (name not in LARGE or k % 4 == 0):
            yield ("prog", (term, spec, (b,), ("torch",), "const"), name)
