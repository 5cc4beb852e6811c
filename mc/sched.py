"""A controlled scheduler for real threads running Ein's code.

A scheduling point is a line of Ein's source about to be executed by a thread (or, in finer runs, an instruction); points
are named by (line, how many times it has been reached).  Only one thread runs at a time, except that a thread found to
be waiting for another one (for a lock, say) is left to it.
"""
import os
import sys
import threading

from . import real

ROOT = os.path.join(os.path.realpath(real.REPO), "ein") + os.sep
_ours = {}


def ours(code):
    r = _ours.get(code)
    if r is None:
        r = _ours[code] = os.path.realpath(code.co_filename).startswith(ROOT)
    return r


def tracer(visit, grain):
    """A trace function calling visit(point) at every scheduling point; it stops tracing once visit returns True.

    grain: "line", "opcode", or a set of code objects: the lines of these and the entries of all others."""
    event_of = "opcode" if grain == "opcode" else "line"
    fine = grain == "opcode"
    everywhere = isinstance(grain, str)

    def local(frame, event, arg):
        if event == event_of:
            if visit((frame.f_code, frame.f_lasti if fine else frame.f_lineno)):
                sys.settrace(None)
                frame.f_trace = None
                return None
        return local

    def entered(frame, event, arg):
        code = frame.f_code
        if not ours(code):
            return None
        if everywhere or code in grain:
            if fine:
                frame.f_trace_opcodes = True
            return local
        if visit((code, "entry")):
            sys.settrace(None)
        return None

    return entered


def rare(op, most=2):
    """The code objects entered at most so many times by the operation."""
    entered = {}

    def trace(frame, event, arg):
        if ours(frame.f_code):
            entered[frame.f_code] = entered.get(frame.f_code, 0) + 1

    sys.settrace(trace)
    try:
        op()
    finally:
        sys.settrace(None)
    return frozenset(c for c, n in entered.items() if n <= most)


def name(point):
    code, at = point
    return f"{os.path.relpath(code.co_filename, ROOT)}:{code.co_qualname}@{at}"


def points(op, grain="line"):
    """The scheduling points of an operation run alone: (name, hits), in the order of their first hits."""
    hits = {}

    def visit(p):
        hits[p] = hits.get(p, 0) + 1

    sys.settrace(tracer(visit, grain))
    try:
        op()
    finally:
        sys.settrace(None)
    out = {}
    for p, n in hits.items():
        out[name(p)] = n
    return list(out.items())


class Outcome:
    value = None
    error = None


class Stop(BaseException):
    """The injected fault."""


BLOCKED_S = 2.0


def guarded(op, out, trace=None):
    try:
        if trace is not None:
            sys.settrace(trace)
        try:
            out.value = op()
        finally:
            sys.settrace(None)
    except BaseException as e:
        out.error = e


def at_point(target, hit, then, grain):
    """A tracer that calls then() when the target is reached for the hit-th time."""
    seen = [0]
    names = {}

    def visit(p):
        n = names.get(p)
        if n is None:
            n = names[p] = name(p)
        if n != target:
            return False
        seen[0] += 1
        if seen[0] < hit:
            return False
        then()
        return True

    return tracer(visit, grain)


def run_fault(op, point, grain="line"):
    """The operation with an exception raised at the point; True if it was reached."""

    def then():
        raise Stop(str(point))

    out = Outcome()
    t = threading.Thread(target=guarded, args=(op, out, at_point(*point, then, grain)))
    t.start()
    t.join()
    return out, isinstance(out.error, Stop)


def run_pair(op_a, op_b, point_a, point_b=None, grain="line"):
    """A runs to its point; B runs to its point (or to the end); A runs to the end; B runs to the end.

    Returns the outcomes and how many of the preemptions took place."""
    a, b = Outcome(), Outcome()
    a_at, b_at, a_end = threading.Event(), threading.Event(), threading.Event()
    switched = [0]

    def body_b():
        def then():
            switched[0] += 1
            b_at.set()
            a_end.wait(BLOCKED_S)

        a_at.wait()
        guarded(op_b, b, at_point(*point_b, then, grain) if point_b is not None else None)
        b_at.set()

    def body_a():
        def then():
            switched[0] += 1
            a_at.set()
            b_at.wait(BLOCKED_S)

        guarded(op_a, a, at_point(*point_a, then, grain))
        a_end.set()
        a_at.set()

    ts = [threading.Thread(target=body_a), threading.Thread(target=body_b)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return a, b, switched[0]
