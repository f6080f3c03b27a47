"""Runs the deductive part of a check and reports its obligations."""
import time
import traceback

from lib import pydv

ENGINE_ASSUMPTIONS = [
    "PyDV's reading of the Python statements and built-ins it supports (lib/pydv.py) is faithful to CPython; anything outside the subset is an undischarged obligation",
    "asynchronous exceptions (KeyboardInterrupt, MemoryError) are not modelled",
    "integers and code points are mathematical integers (exact for Python)",
    "z3 is trusted: its 'unsat' answers are not re-checked",
]


def prove(chk, pid, body, budget=500):
    """``body(verifier)`` generates the obligations; True when all hold."""
    v = pydv.Verifier()
    v.deadline = time.time() + budget
    try:
        body(v)
    except Exception:
        v.current = "engine"
        v.record("the proof engine could process the source", False, 0, traceback.format_exc())
    if not v.results:
        v.current = "engine"
        v.record("at least one obligation", False, 0, "no obligation was generated")
    ok = v.report(chk)
    for a in ENGINE_ASSUMPTIONS:
        if a not in chk.assumptions:
            chk.assumptions.append(a)
    for name in sorted(v.used_models):
        t = "trusted model: " + name
        if t not in chk.trusted:
            chk.trusted.append(t)
    for t in ("lib/pydv.py (verification condition generator)", "z3 5.3 (SMT back end)"):
        if t not in chk.trusted:
            chk.trusted.append(t)
    return ok
