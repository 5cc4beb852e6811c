"""Folds: every fold is the sequential loop."""
from mc import fam, famfold
from mc.runners import run_prog  # noqa: F401

BE = ("numpy", "torch", "naive")


def cases(tier):
    for name, term, spec, va in fam.progs(famfold.FOLD_FAMILIES, tier):
        yield ("prog", (term, spec, va, BE, "var"), name)
