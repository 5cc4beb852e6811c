"""Comprehensions: the array returned is the model's, for every program of the families at every valuation."""
from mc import fam
from mc.runners import run_prog  # noqa: F401


def cases(tier):
    # (extents of arrays, given and computed, and what they are known to be equal to)
    for name, term, spec, va in fam.progs(fam.INDEX_FAMILIES, tier, ("extents", "own")):
        yield ("prog", (term, spec, va, ("numpy",), "var"), "indexing/" + name)
    for name, term, spec, va in fam.progs(fam.COMPREHENSION_FAMILIES, tier):
        yield ("prog", (term, spec, va, ("numpy",), "var"), name)
        # the same program with its inputs embedded, through .eval()
        yield ("prog", (term, spec, va if tier == "thorough" else va[:1], ("numpy",), "const"), name + "/embedded")
