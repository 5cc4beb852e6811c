"""Indexing: every index expression reads the clamped element."""
from mc import fam
from mc.runners import run_prog  # noqa: F401

BE = ("numpy", "torch", "naive")


def cases(tier):
    for name, term, spec, va in fam.progs(fam.INDEX_FAMILIES, tier):
        yield ("prog", (term, spec, va, BE, "var"), name)
