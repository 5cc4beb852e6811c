"""Reductions: every reduction is the left-to-right combination."""
from mc import fam, famfold
from mc.runners import run_prog  # noqa: F401

BE = ("numpy", "torch", "naive")


def cases(tier):
    for name, term, spec, va in fam.progs(famfold.REDUCE_FAMILIES, tier):
        yield ("prog", (term, spec, va, BE, "var"), name)
