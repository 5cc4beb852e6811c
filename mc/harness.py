"""Worker side of a check: enumerates the cases of a property, runs the ones of its shard.

A case is (runner, args): the name of a runner in the check's module and JSON-able arguments (after
conversion of lists to tuples).  A runner returns None or a description of a violation, and counts what it covers in
the context.  The parent process (run.py) merges what the workers report.
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback


def tuples(x):
    if isinstance(x, list):
        return tuple(tuples(y) for y in x)
    return x


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang()


class Ctx:
    def __init__(self, tier, seed, order):
        self.tier = tier
        self.seed = seed
        self.order = order
        self.states = 0  # points of the model evaluated
        self.transitions = 0  # executions of the implementation compared with the model
        self.traces = 0  # cases replayed completely
        self.counters = {}
        self.refused = 0
        self.outside = 0

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n


def symbol_order(mode):
    """Fixes the iteration order of sets of Ein's symbols (by default it follows memory addresses)."""
    if mode == "natural":
        return False
    try:
        from ein import symbols

        counter = [0]
        sign = 1 if mode == "asc" else -1

        def hash_(self):
            d = self.__dict__
            h = d.get("_verif_hash")
            if h is None:
                counter[0] += 1
                h = d["_verif_hash"] = (1 << 20) + sign * (counter[0] % (1 << 19))
            return h

        probe = symbols.Variable()
        if not hasattr(probe, "__dict__"):
            return False
        symbols.Symbol.__hash__ = hash_
        assert len({symbols.Variable(), symbols.Index()}) == 2
        return True
    except Exception:
        return False


def quiet_threads():
    import torch

    torch.set_num_threads(1)
    try:
        torch.set_num_interop_threads(1)
    except RuntimeError:
        pass


CASE_CPU_S = 60


def load(prop):
    return importlib.import_module(f"mc.checks.{prop.lower()}")


def run_one(mod, case, ctx):
    """None, or a description of the violation."""
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, getattr(mod, "CASE_CPU_S", CASE_CPU_S))
    try:
        return getattr(mod, "run_" + case[0])(ctx, *case[1])
    except Hang:
        return f"no result within {CASE_CPU_S} s of CPU time"
    except RecursionError:
        return "unbounded recursion: " + traceback.format_exc(limit=-3)
    except Exception:
        return "unexpected exception: " + traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


def worker(prop, tier, seed, shard, shards, order, deadline, out_path):
    mod = load(prop)
    ordered = symbol_order(order)
    quiet_threads()
    ctx = Ctx(tier, seed, order)
    ctx.ordered = ordered
    violations, samples = [], []
    progress = open(out_path + ".progress", "w")
    total = taken = 0
    complete = True
    fam_seen, fam_counts = {}, {}
    last_mark = time.time()
    max_viol = 40
    for case in mod.cases(tier):
        i = total
        total += 1
        if i % shards != shard:
            continue
        now = time.time()
        if now > deadline:
            complete = False
            break
        if now - last_mark > 0.2 or taken % 50 == 0:
            last_mark = now
        progress.seek(0)
        progress.write(json.dumps([i, case])[:20000])
        progress.truncate()
        progress.flush()
        taken += 1
        fam = case[2] if len(case) > 2 else case[0]
        fam_counts[fam] = fam_counts.get(fam, 0) + 1
        what = run_one(mod, case, ctx)
        if what is not None:
            violations.append({"case": case, "what": what, "order": order})
            if len(violations) >= max_viol:
                complete = False
                break
        if fam_seen.get(fam, 0) < 1:
            fam_seen[fam] = 1
            samples.append(case)
    if complete and hasattr(mod, "finish"):
        what = mod.finish(ctx)
        if what is not None:
            violations.append({"case": ["finish", []], "what": what, "order": order})
    with open(out_path, "w") as f:
        json.dump(
            {
                "states": ctx.states, "transitions": ctx.transitions, "traces": ctx.traces,
                "counters": ctx.counters, "refused": ctx.refused, "outside": ctx.outside,
                "violations": violations, "samples": samples[:3], "complete": complete,
                "total": total, "taken": taken, "families": fam_counts, "ordered": ordered,
            },
            f,
        )


if __name__ == "__main__":
    prop, tier, seed, shard, shards, order, deadline, out = sys.argv[1:]
    worker(prop, tier, int(seed), int(shard), int(shards), order, float(deadline), out)
