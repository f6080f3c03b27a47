"""PyDV: a deductive verifier for the Python functions of /repo.

The verified text is the text that runs: every run parses the functions from
the source files under REPO (``ast``) and interprets their statements directly
over symbolic values; nothing is re-written by hand and nothing is dropped.
Contracts live in sidecar modules (``contracts/``):

* ``Contract``: precondition (``setup``), frame, postcondition and exceptional
  postconditions of one function.  The same contract is used to verify the
  body and, at every call site, instead of the body.
* ``Loop``: invariant, frame and variant of one loop.  Entering a loop with a
  contract proves the invariant, forgets everything the loop may change and
  assumes the invariant: one arbitrary iteration stands for all of them.

Exploration is path based.  Every condition that is not decided by the path
condition forks the path (z3 decides feasibility); there is no bound on
iterations or on recursion depth because every loop over symbolic data needs a
contract, and a construct, callee or value outside the supported subset makes
the obligations of that function undischarged (``Unsupported``), never
silently skipped.

Python integers are mathematical integers, which is exact.  Strings are z3
sequences of code points (``S``), single symbolic characters (``Char``) or
symbolic texts given by length and code-point function (``Text``).
"""
import ast
import builtins
import importlib
import inspect
import os
import string as _string
import sys
import time

from lib import common
import z3

# a runaway query must fail, not exhaust the machine
z3.set_param("memory_max_size", 6000)
INT, BOOL, REAL = z3.IntSort(), z3.BoolSort(), z3.RealSort()
STR = z3.SeqSort(INT)
TIMEOUT = int(os.environ.get("PYDV_TIMEOUT_MS", "20000"))
MAXCHAR = 0x10FFFF


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    """The current path is complete (cut at a loop head or infeasible)."""


class PyRaise(Exception):

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class _Return(Exception):

    def __init__(self, value):
        super().__init__()
        self.value = value


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ------------------------------------------------------------------- values
class ExcVal:
    """An exception instance of the interpreted program."""

    def __init__(self, cls, args=(), attrs=None):
        self.cls = cls
        self.args = tuple(args)
        self.attrs = attrs or {}

    def __repr__(self):
        return "%s%r" % (self.cls.__name__, self.args)


class S:
    """A symbolic string (z3 sequence of code points)."""

    def __init__(self, term):
        self.term = term

    def __repr__(self):
        return "S(%s)" % self.term


class Char:
    """A string of exactly one symbolic character."""

    def __init__(self, code):
        self.code = code

    def __repr__(self):
        return "Char(%s)" % self.code


class Text:
    """A symbolic string given by its length and its code points."""

    def __init__(self, fn, length, on_read=None):
        self.fn = fn
        self.length = length
        # definitional instances of specification functions at a read position
        self.on_read = on_read


class Opaque:
    """A value about which nothing is known except what a model adds."""

    def __init__(self, tag, **attrs):
        self.tag = tag
        self.attrs = attrs

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class Poison:

    def __repr__(self):
        return "Poison"


POISON = Poison()


class Obj:
    """An instance of a class of the verified program."""

    def __init__(self, cls, serial, attrs=None, label=""):
        self.cls = cls
        self.serial = serial
        self.attrs = attrs if attrs is not None else {}
        self.label = label
        self.frozen = False

    def __repr__(self):
        return "<%s #%d>" % (getattr(self.cls, "__name__", self.cls), self.serial)


class PList:
    """A list of statically known length (elements may be symbolic)."""

    def __init__(self, items, serial):
        self.items = list(items)
        self.serial = serial


class PDict:
    """A dictionary with concrete keys."""

    def __init__(self, items, serial):
        self.items = dict(items)
        self.serial = serial


class PSet:

    def __init__(self, items, serial):
        self.items = set(items)
        self.serial = serial


class Sym:
    """Base class of sidecar value models (symbolic lists, maps, externals).

    A model may define ``py_getattr(interp, name)``, ``py_call``, ``py_len``,
    ``py_iter`` (returns an ``SIter``), ``py_contains``, ``py_getitem``,
    ``py_setitem``, ``py_truth``, ``py_eq``, ``py_enter``, ``py_exit``.  Models
    are mutable through ``set(interp, field, value)`` only, so frames are
    checked for them like for objects.
    """

    serial = -1
    frozen = False

    def __init__(self, **attrs):
        self.attrs = attrs

    def get(self, field):
        return self.attrs[field]

    def set(self, interp, field, value):
        interp.check_write(self, field)
        self.attrs[field] = value


class SIter:
    """A symbolic sequence being iterated: ``state`` is the ghost position."""

    def start(self, interp):
        raise NotImplementedError

    def fresh(self, interp):
        raise NotImplementedError

    def done(self, interp, state):
        raise NotImplementedError

    def next(self, interp, state):
        raise NotImplementedError


class IndexIter(SIter):
    """Iteration over ``length`` elements ``elem(i)``."""

    def __init__(self, length, elem):
        self.length = length
        self.elem = elem

    def start(self, interp):
        return z3.IntVal(0)

    def fresh(self, interp):
        i = interp.ctx.fresh("i", INT)
        interp.ctx.assume(z3.And(i >= 0, i <= self.length))
        return i

    def done(self, interp, state):
        return state >= self.length

    def next(self, interp, state):
        return self.elem(interp, state), state + 1


class UFunc:
    """A function of the verified program (its parsed source)."""

    def __init__(self, node, globs, qualname, real=None, closure=None, path=""):
        self.node = node
        self.globs = globs
        self.qualname = qualname
        self.real = real
        self.closure = closure
        self.path = path

    def __repr__(self):
        return "<ufunc %s>" % self.qualname


class Bound:

    def __init__(self, self_value, func):
        self.self_value = self_value
        self.func = func


class Method:
    """A method of a built-in or model value."""

    def __init__(self, owner, name):
        self.owner = owner
        self.name = name


class Super:
    """The object super() gives."""

    def __init__(self, cls, value):
        self.cls, self.value = cls, value


class Model:
    """A trusted model of an external callable."""

    def __init__(self, fn, name=""):
        self.fn = fn
        self.name = name


class Partial:

    def __init__(self, fn):
        self.fn = fn


# ----------------------------------------------------------------- z3 helpers
def lit(text):
    codes = [z3.Unit(z3.IntVal(ord(c))) for c in text]
    if not codes:
        return z3.Empty(STR)
    return codes[0] if len(codes) == 1 else z3.Concat(*codes)


def cat(*terms):
    terms = [t for t in terms if t is not None]
    return terms[0] if len(terms) == 1 else z3.Concat(*terms)


def is_z3(value):
    return isinstance(value, z3.ExprRef)


def is_str(value):
    return isinstance(value, (str, S, Char, Text))


def is_int(value):
    return (isinstance(value, int) and not isinstance(value, bool)) or (is_z3(value) and value.sort() == INT)


def is_real(value):
    return isinstance(value, float) or (is_z3(value) and value.sort() == REAL)


def zreal(value):
    """Floats are treated as exact reals (an assumption of the checks that use them)."""
    if isinstance(value, (int, float)):
        from fractions import Fraction
        if value != value or value in (float("inf"), float("-inf")):
            raise Unsupported("non-finite float")
        f = Fraction(value)
        return z3.Q(f.numerator, f.denominator)
    return z3.ToReal(value) if value.sort() == INT else value


def is_bool(value):
    return isinstance(value, bool) or (is_z3(value) and value.sort() == BOOL)


def seq(value):
    """The z3 sequence of a string value."""
    if isinstance(value, str):
        return lit(value)
    if isinstance(value, S):
        return value.term
    if isinstance(value, Char):
        return z3.Unit(value.code)
    raise Unsupported("no sequence term for %r" % (value,))


def charset(code, chars):
    """``code`` is one of the characters of a concrete string."""
    points = sorted({ord(c) for c in chars})
    spans = []
    for p in points:
        if spans and spans[-1][1] == p - 1:
            spans[-1][1] = p
        else:
            spans.append([p, p])
    if not spans:
        return z3.BoolVal(False)
    return z3.Or(*[code == a if a == b else z3.And(code >= a, code <= b) for a, b in spans])


def zbool(value):
    return z3.BoolVal(value) if isinstance(value, bool) else value


def zand(*values):
    if any(v is False for v in values):
        return False
    values = [v for v in values if v is not True]
    if not values:
        return True
    return z3.And(*values) if len(values) > 1 else values[0]


def znot(value):
    return (not value) if isinstance(value, bool) else z3.Not(value)


def has_quantifier(term):
    seen = set()
    stack = [term]
    while stack:
        t = stack.pop()
        if z3.is_quantifier(t):
            return True
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        stack.extend(t.children())
    return False


def mentions(term, names):
    """A function of ``names`` occurs in the term."""
    seen = set()
    stack = [term]
    while stack:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t) and t.decl().name() in names:
            return True
        stack.extend(t.children())
    return False


# REPLACE of a one-character pattern is the homomorphism replacing every
# occurrence (trusted model of str.replace); one function per (pattern, text)
_REPLACE = {}


def replace_fn(pattern, new):
    key = (pattern, new)
    if key not in _REPLACE:
        _REPLACE[key] = z3.Function("REPLACE_%s_%s" % ("x".join("%x" % ord(c) for c in pattern), "x".join("%x" % ord(c) for c in new)),
                                    STR, STR)
    return _REPLACE[key]


# ------------------------------------------------------------------ contracts
class Contract:
    """Sidecar contract of one function.

    ``target``   "module:qualname"
    ``setup(I)`` -> (args, kwargs): an arbitrary state satisfying the
                 precondition (the precondition is assumed here)
    ``body post(I, old, args, kwargs, result)``: yields (name, formula)
    ``raises``   {exception class: function(I, old, args, kwargs, exc) yields}
    ``snapshot(I, args, kwargs)`` -> old
    ``pre(I, args, kwargs)`` yields (name, formula): proved at call sites
    ``apply(I, args, kwargs)``: call-site meaning; the default havocs with
                 ``frame`` + ``result`` and assumes ``post``/``raises``.
    """

    target = ""
    raises = {}
    # canaries: at least that many normally completed live paths
    min_returns = 1
    light = True

    def setup(self, I):
        raise NotImplementedError

    def snapshot(self, I, args, kwargs):
        return None

    def pre(self, I, args, kwargs):
        return ()

    def frame(self, I, args, kwargs):
        return ()

    def havoc(self, I, args, kwargs):
        pass

    def result(self, I, args, kwargs):
        return None

    def post(self, I, old, args, kwargs, result):
        return ()

    def apply(self, I, args, kwargs):
        label = "call %s" % self.target
        for name, formula in self.pre(I, args, kwargs):
            I.ctx.prove("%s: precondition %s" % (label, name), formula)
        old = self.snapshot(I, args, kwargs)
        for obj, field in self.frame(I, args, kwargs):
            I.check_write(obj, field)
        outcomes = [None] + list(self.raises)
        outcome = None
        for exc in outcomes[1:]:
            if I.ctx.choose("raise %s" % exc.__name__):
                outcome = exc
                break
        self.havoc(I, args, kwargs)
        if outcome is not None:
            exc = ExcVal(outcome, ("from contract",))
            for name, formula in self.raises[outcome](self, I, old, args, kwargs, exc):
                I.ctx.assume(formula, self.light)
            I.ctx.feasible_or_end()
            raise PyRaise(exc)
        result = self.result(I, args, kwargs)
        for name, formula in self.post(I, old, args, kwargs, result):
            I.ctx.assume(formula, self.light)
        I.ctx.feasible_or_end()
        return result


class Loop:
    """Sidecar contract of one loop (``func`` qualname, ordinal in source).

    ``havoc``    {local name: kind}; kind is 'int' 'bool' 'char' 'str' or a
                 function (L) -> value
    ``modifies(L)`` yields (obj, field, kind)
    ``enter(L)`` ghost values computed at loop entry (dict)
    ``inv(L)``   yields (name, formula)
    ``variant(L)`` integer term, or None to leave termination unproved
    """

    havoc = {}
    kinds = {}
    light = True

    def modifies(self, L):
        return ()

    def enter(self, L):
        return {}

    def assumes(self, L):
        """Facts that define ghost values of the arbitrary iteration."""
        return ()

    def inv(self, L):
        return ()

    def variant(self, L):
        return None


class LoopView:

    def __init__(self, interp, frame, state=None):
        self.I = interp
        self.frame = frame
        self.state = state
        self.ghost = {}
        self.rename = {}
        self.entry = dict(frame.locals)

    def __getitem__(self, name):
        try:
            return self.frame.lookup_local(self.rename.get(name, name))
        except KeyError:
            raise Unsupported("the loop contract needs a local named %s" % name)

    def find(self, cls_name):
        """The only local object of a class, whatever its name."""
        found = [v for v in self.frame.locals.values() if isinstance(v, Obj) and getattr(v.cls, "__name__", "") == cls_name]
        found = [v for i, v in enumerate(found) if all(v is not w for w in found[:i])]
        if len(found) != 1:
            raise Unsupported("the loop contract needs one local %s" % cls_name)
        return found[0]

    def __contains__(self, name):
        try:
            return self.frame.lookup_local(name) is not POISON
        except KeyError:
            return False

    def __getattr__(self, name):
        try:
            return self.ghost[name]
        except KeyError:
            raise AttributeError(name)


# ------------------------------------------------------------------ contexts
class Ctx:
    """One path: the decision trace, path condition and obligations."""

    def __init__(self, verifier, trace):
        self.verifier = verifier
        self.trace = list(trace)
        self.pos = 0
        self.solver = z3.Solver()
        self.solver.set("timeout", TIMEOUT)
        self.solver.add(*verifier.axioms)
        # feasibility only prunes paths: quantified facts are left out
        self.fsolver = z3.Solver()
        self.fsolver.set("timeout", 1000)
        self.fsolver.add(*[a for a in verifier.axioms if not has_quantifier(a)])
        self.pc = []
        self.counters = {}
        self.serial = 0
        self.notes = []

    def replaying(self):
        return self.pos < len(self.trace)

    def fresh(self, name, sort):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return z3.Const("%s!%d" % (name, n), sort)

    def fresh_fn(self, name, *sorts):
        n = self.counters.get(name, 0)
        self.counters[name] = n + 1
        return z3.Function("%s!%d" % (name, n), *sorts)

    def new_serial(self):
        self.serial += 1
        return self.serial

    def assume(self, formula, light=True):
        """``light=False``: not used to prune paths (specification facts)."""
        if light and self.verifier.heavy and not isinstance(formula, bool):
            light = not mentions(formula, self.verifier.heavy)
        if formula is True:
            return
        formula = zbool(formula)
        self.pc.append(formula)
        self.solver.add(formula)
        if light and not has_quantifier(formula):
            self.fsolver.add(formula)

    def _check(self, formula):
        self.fsolver.push()
        self.fsolver.add(formula)
        t0 = time.time()
        r = self.fsolver.check()
        self.verifier.solver_seconds += time.time() - t0
        self.verifier.queries += 1
        self.fsolver.pop()
        return r

    def feasible_or_end(self):
        if self.replaying():
            return
        t0 = time.time()
        r = self.fsolver.check()
        self.verifier.solver_seconds += time.time() - t0
        if r == z3.unsat:
            raise PathEnd()

    def choose(self, label):
        """A nondeterministic choice of the environment."""
        if self.replaying():
            value = self.trace[self.pos]
        else:
            value = True
            self.verifier.worklist.append(self.trace + [False])
            self.trace.append(True)
        self.pos += 1
        return value

    def decide(self, cond, label=""):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.replaying():
            value = self.trace[self.pos]
            self.pos += 1
            self.assume(cond if value else z3.Not(cond))
            return value
        yes = self._check(cond) != z3.unsat
        no = self._check(z3.Not(cond)) != z3.unsat
        if not yes and not no:
            raise PathEnd()
        if yes and no:
            self.verifier.worklist.append(self.trace + [False])
        value = yes
        self.trace.append(value)
        self.pos += 1
        self.assume(cond if value else z3.Not(cond))
        return value

    def prove(self, name, formula, axioms=()):
        """An obligation: the path condition implies ``formula``."""
        if formula is True:
            formula = z3.BoolVal(True)
        if formula is False:
            formula = z3.BoolVal(False)
        if not self.replaying():
            self.verifier.prove(self, name, formula)
        self.assume(formula)


class Verifier:
    """Verifies functions and lemmas; collects the obligations."""

    def __init__(self, timeout=None):
        self.axioms = []
        # facts about these specification functions do not prune paths
        self.heavy = set()
        self.contracts = {}
        self.loops = {}
        self.models = {}
        self.worklist = []
        self.results = []  # (function, obligation, ok, seconds, detail)
        self.current = ""
        self.solver_seconds = 0.0
        self.queries = 0
        self.retries = 0
        self.paths = 0
        self.returns = 0
        self.raised = {}
        self.functions = []
        self.inlined = set()
        self.used_models = set()
        self.used_contracts = set()
        self.max_paths = 4000
        # value models of real objects, by a function (interp, value)
        self.wrap = None
        self.modules = {}
        self.deadline = None

    # -- registration
    def contract(self, c):
        self.contracts[c.target] = c
        return c

    def loop(self, func, ordinal, contract):
        self.loops[(func, ordinal)] = contract

    def model(self, real, fn, name=None):
        """Trusted model of a real callable object."""
        self.models[id(real)] = (real, Model(fn, name or getattr(real, "__qualname__", str(real))))

    def record(self, name, ok, seconds, detail=""):
        self.results.append((self.current, name, bool(ok), seconds, detail))

    def prove(self, ctx, name, formula):
        t0 = time.time()
        ctx.solver.push()
        ctx.solver.set("timeout", min(TIMEOUT, 3000))
        ctx.solver.add(z3.Not(formula))
        r = ctx.solver.check()
        detail = ""
        if r == z3.unknown:
            # a plainly false goal only asks whether the path exists
            r, detail = self.retry(list(ctx.solver.assertions()), ctx.solver.reason_unknown(), 2 if z3.is_false(z3.simplify(formula)) else 5)
        elif r == z3.sat:
            detail = "counterexample to the obligation:\n%s" % model_text(ctx.solver.model())
        ctx.solver.pop()
        dt = time.time() - t0
        self.solver_seconds += dt
        self.queries += 1
        if r != z3.unsat:
            detail += "\nobligation: %s" % str(formula)[:1500]
        self.record(name, r == z3.unsat, dt, detail)

    def retry(self, assertions, reason, tries=5):
        """Other strategies for a query the incremental solver gave up on."""
        plans = [(0, 3000, False), (1, 5000, False), (7, 5000, False), (0, min(TIMEOUT, 15000), True), (3, TIMEOUT, True)]
        for seed, limit, mbqi in plans[:tries]:
            if self.deadline and time.time() > self.deadline:
                break
            s = z3.Solver()
            s.set("timeout", min(limit, TIMEOUT))
            s.set("random_seed", seed)
            if not mbqi:
                s.set("auto_config", False)
                s.set("mbqi", False)
            s.add(*assertions)
            r = s.check()
            self.queries += 1
            if r == z3.unsat:
                self.retries += 1
                return r, ""
            if r == z3.sat:
                return r, "counterexample to the obligation:\n%s" % model_text(s.model())
            reason = s.reason_unknown()
        return z3.unknown, "solver: unknown (%s)" % reason

    # -- lemmas over the specification functions
    def lemma(self, name, hypotheses, conclusion):
        self.current = "lemma"
        s = z3.Solver()
        s.set("timeout", TIMEOUT)
        s.add(*self.axioms)
        s.add(*hypotheses)
        t0 = time.time()
        vs = z3.Solver()
        vs.set("timeout", 2000)
        vs.add(*[a for a in list(self.axioms) + list(hypotheses) if not has_quantifier(a)])
        vac = vs.check()
        if vac == z3.unsat:
            self.record(name, False, time.time() - t0, "the hypotheses are contradictory (vacuous lemma)")
            return
        s.add(z3.Not(conclusion))
        r = s.check()
        if r == z3.unknown:
            r, _ = self.retry(list(s.assertions()), "")
        dt = time.time() - t0
        self.solver_seconds += dt
        self.queries += 2
        self.record(name, r == z3.unsat, dt, "" if r == z3.unsat else "%s: %s" % (r, str(conclusion)[:800]))

    # -- functions
    def find(self, target):
        modname, qual = target.split(":")
        module = importlib.import_module(modname)
        tree, path = self.parse(module)
        node = tree
        for part in qual.split("."):
            if part == "<locals>":
                continue
            found = None
            for child in ast.walk(node) if isinstance(node, (ast.FunctionDef, )) else node.body:
                if isinstance(child, (ast.FunctionDef, ast.ClassDef)) and child.name == part and child is not node:
                    found = child
            if found is None:
                raise Unsupported("function %s is not in the source of %s" % (qual, modname))
            node = found
        return UFunc(node, module.__dict__, target, path=path)

    def parse(self, module):
        path = module.__file__
        if path not in self.modules:
            with open(path, encoding="utf-8") as f:
                self.modules[path] = ast.parse(f.read(), path)
        return self.modules[path], path

    def explore(self, label, run):
        """Explores every path of ``run(interp)``."""
        self.current = label
        self.worklist = [[]]
        paths = returns = 0
        raised = {}
        while self.worklist:
            if paths >= self.max_paths:
                self.record("paths", False, 0, "more than %d paths" % self.max_paths)
                break
            if sum(1 for r in self.results if r[0] == label and not r[2]) >= 4:
                self.record("remaining paths", False, 0, "not explored after several failed obligations")
                break
            if self.deadline and time.time() > self.deadline:
                self.record("time", False, 0, "the time budget of the proof is used up")
                break
            trace = self.worklist.pop()
            ctx = Ctx(self, trace)
            interp = Interp(self, ctx)
            paths += 1
            try:
                outcome = run(interp)
                if outcome == "return":
                    returns += 1
                elif outcome:
                    raised[outcome] = raised.get(outcome, 0) + 1
            except PathEnd:
                pass
            except Unsupported as e:
                self.record("supported construct", False, 0, "%s\n%s" % (e, interp.where()))
                break
            except (KeyError, AttributeError, TypeError, IndexError, ValueError, AssertionError, z3.Z3Exception) as e:
                import traceback
                self.record("supported construct", False, 0, "the engine cannot process the source: %r\n%s\n%s" %
                            (e, interp.where(), traceback.format_exc()[-1500:]))
                break
            except RecursionError:
                self.record("supported construct", False, 0, "recursion without a contract\n" + interp.where())
                break
        self.paths += paths
        self.returns += returns
        return paths, returns, raised

    def verify(self, contract):
        """All obligations of one function under its contract."""
        target = contract.target
        t0 = time.time()
        self.current = target
        try:
            func = self.find(target)
        except Unsupported as e:
            self.record("function present", False, 0, str(e))
            return
        except SyntaxError as e:
            self.record("source parses", False, 0, str(e))
            return

        def run(I):
            args, kwargs = contract.setup(I)
            if not I.ctx.replaying():
                I.ctx.feasible_or_end()
            old = contract.snapshot(I, args, kwargs)
            guard = WriteGuard(I.ctx.serial, [(o, f) for o, f in contract.frame(I, args, kwargs)], "frame of %s" % target)
            I.guards.append(guard)
            try:
                on_yield = None
                if is_generator(func.node) and hasattr(contract, "yielded"):
                    on_yield = lambda value: contract.yielded(I, old, args, kwargs, value)
                result = I.run_function(func, args, kwargs, toplevel=True, on_yield=on_yield)
            except PyRaise as e:
                handler = None
                for cls, fn in contract.raises.items():
                    if issubclass(e.exc.cls, cls):
                        handler = fn
                if handler is None:
                    I.ctx.prove("no %s escapes%s" % (e.exc.cls.__name__, I.line()), z3.BoolVal(False))
                    return None
                for name, formula in handler(contract, I, old, args, kwargs, e.exc):
                    I.ctx.prove("raises %s: %s" % (e.exc.cls.__name__, name), formula)
                I.ctx.feasible_or_end()
                return e.exc.cls.__name__
            for name, formula in contract.post(I, old, args, kwargs, result):
                I.ctx.prove("post: %s" % name, formula)
            I.ctx.feasible_or_end()
            return "return"

        n0 = len(self.results)
        paths, returns, raised = self.explore(target, run)
        ok = all(r[2] for r in self.results[n0:])
        # vacuity: the precondition is satisfiable and the function returns
        if returns < contract.min_returns:
            self.record("not vacuous", False, 0, "only %d live paths return (%d paths, raised %r)" % (returns, paths, raised))
        elif len(self.results) == n0:
            self.record("not vacuous", False, 0, "no obligation was generated")
        else:
            self.record("not vacuous", True, 0, "%d paths, %d live returns, raised %r" % (paths, returns, raised))
        self.functions.append((target, paths, returns, ok, round(time.time() - t0, 2)))

    # -- reporting into a Check
    def report(self, chk, prefix="", backend="z3"):
        merged = {}
        order = []
        for function, name, ok, seconds, detail in self.results:
            key = (function, name)
            if key not in merged:
                merged[key] = [True, 0.0, "", 0]
                order.append(key)
            m = merged[key]
            m[0] = m[0] and ok
            m[1] += seconds
            m[3] += 1
            if not ok and not m[2]:
                m[2] = detail
        for function, name in order:
            ok, seconds, detail, n = merged[(function, name)]
            label = "%s%s: %s" % (prefix, function, name)
            chk.obligation(label, ok, backend, seconds, detail or ("%d paths" % n), function=None if function == "lemma" else function)
            if not ok:
                chk.fail_obligation(label, detail)
        total = chk.extra.setdefault("proof", {})
        for key, value in {
            "queries": self.queries,
            "queries_retried": self.retries,
            "verification_conditions": len(self.results),
            "solver_seconds": round(self.solver_seconds, 2),
            "paths": self.paths,
            "functions": [list(f) for f in self.functions],
            "inlined_without_contract": sorted(self.inlined),
            "called_through_contract": sorted(self.used_contracts),
            "trusted_models_used": sorted(self.used_models),
        }.items():
            total[key] = total[key] + [x for x in value if x not in total[key]] if isinstance(value, list) and key in total else total.get(key, type(value)()) + value
        return all(m[0] for m in merged.values())


def model_text(model):
    try:
        return "\n".join("  %s = %s" % (d.name(), str(model[d])[:200]) for d in sorted(model.decls(), key=lambda d: d.name())[:60])
    except z3.Z3Exception as e:
        return str(e)


class WriteGuard:
    """Only objects created later, or the listed fields, may be written."""

    def __init__(self, serial, allowed, label):
        self.serial = serial
        self.allowed = [(id(o), f) for o, f in allowed]
        self.keep = [o for o, _ in allowed]
        self.label = label

    def permits(self, obj, field):
        return obj.serial > self.serial or (id(obj), field) in self.allowed or (id(obj), "*") in self.allowed


class Frame:

    def __init__(self, func, locals_, parent=None):
        self.func = func
        self.locals = locals_
        self.parent = parent
        self.nonlocals = set()
        self.globals_declared = set()
        self.loop_ordinals = None
        self.node = None
        self.on_yield = None

    def lookup_local(self, name):
        f = self
        while f is not None:
            if name in f.locals:
                return f.locals[name]
            f = f.parent
        raise KeyError(name)

    def store(self, name, value):
        f = self
        if name in self.nonlocals:
            f = self.parent
            while f is not None and name not in f.locals:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal %s" % name)
        f.locals[name] = value


_MISSING = object()


def assigned_names(body):
    """Locals assigned by the statements (nested functions excluded)."""
    names = set()

    def visit(node):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            names.add(node.name)
            return
        if isinstance(node, ast.Lambda):
            return
        if isinstance(node, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for child in ast.walk(node):
                if isinstance(child, ast.NamedExpr):
                    names.add(child.target.id)
            return
        if isinstance(node, ast.Name) and isinstance(node.ctx, (ast.Store, ast.Del)):
            names.add(node.id)
        if isinstance(node, ast.ExceptHandler) and node.name:
            names.add(node.name)
        for child in ast.iter_child_nodes(node):
            visit(child)

    for stmt in body:
        visit(stmt)
    return names


class Interp:

    def __init__(self, verifier, ctx):
        self.v = verifier
        self.ctx = ctx
        self.frames = []
        self.guards = []
        self.globals_ghost = {}

    # ------------------------------------------------------------ diagnostics
    def where(self):
        out = []
        for f in self.frames:
            if f.node is not None:
                out.append("%s line %s" % (f.func.qualname, getattr(f.node, "lineno", "?")))
        return " > ".join(out)

    def line(self):
        return ""

    def unsupported(self, message):
        raise Unsupported(message)

    def truth_decide(self, value):
        return self.ctx.decide(self.truth(value))

    # ----------------------------------------------------------------- frames
    def check_write(self, obj, field):
        if obj.frozen:
            self.ctx.prove("no write to a shared value (%s.%s)" % (type(obj).__name__, field), z3.BoolVal(False))
        for guard in self.guards:
            if not guard.permits(obj, field):
                self.ctx.prove("%s: write of %s.%s" % (guard.label, getattr(obj, "label", "") or type(obj).__name__, field),
                               z3.BoolVal(False))

    def retire(self, old):
        """A container replaced by its abstraction at a loop head."""
        if isinstance(old, (PList, PDict, PSet)):
            self.check_write(Guarded(old), "*")
            old.items = Retired()
        elif isinstance(old, Sym) and old.attrs and not old.frozen:
            for field in old.attrs:
                self.check_write(old, field)
            old.attrs = Retired()

    def new_obj(self, cls, attrs=None, label=""):
        return Obj(cls, self.ctx.new_serial(), attrs, label)

    def new_list(self, items=()):
        return PList(items, self.ctx.new_serial())

    def new_dict(self, items=()):
        return PDict(items, self.ctx.new_serial())

    def sym(self, model):
        model.serial = self.ctx.new_serial()
        return model

    def fresh_kind(self, kind, name):
        if callable(kind):
            return kind(self, name)
        if kind == "int":
            return self.ctx.fresh(name, INT)
        if kind == "bool":
            return self.ctx.fresh(name, BOOL)
        if kind == "str":
            return S(self.ctx.fresh(name, STR))
        raise Unsupported("kind %r" % (kind,))

    # ------------------------------------------------------------------ calls
    def bind(self, func, args, kwargs):
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        values = {}
        args = list(args)
        kwargs = dict(kwargs)
        for name in names:
            if args:
                values[name] = args.pop(0)
        if args:
            if a.vararg is None:
                raise PyRaise(ExcVal(TypeError, ("too many arguments",)))
            values[a.vararg.arg] = tuple(args)
        elif a.vararg is not None:
            values[a.vararg.arg] = ()
        for k in list(kwargs):
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in values:
                    raise PyRaise(ExcVal(TypeError, ("multiple values for %s" % k,)))
                values[k] = kwargs.pop(k)
        if a.kwarg is not None:
            values[a.kwarg.arg] = self.new_dict(kwargs)
        elif kwargs:
            raise PyRaise(ExcVal(TypeError, ("unexpected keyword %s" % sorted(kwargs),)))
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for name in names + [x.arg for x in a.kwonlyargs]:
            if name not in values:
                if name not in defaults:
                    raise PyRaise(ExcVal(TypeError, ("missing argument %s" % name,)))
                # defaults are constants in the verified code
                values[name] = self.eval_default(defaults[name], func)
        return values

    def eval_default(self, node, func):
        frame = Frame(func, {}, func.closure)
        self.frames.append(frame)
        try:
            return self.eval(node)
        finally:
            self.frames.pop()

    def run_function(self, func, args, kwargs, toplevel=False, on_yield=None):
        if isinstance(func.node, ast.Lambda):
            frame = Frame(func, self.bind(func, args, kwargs), func.closure)
            self.frames.append(frame)
            try:
                return self.eval(func.node.body)
            finally:
                self.frames.pop()
        if len(self.frames) > 40:
            raise Unsupported("call depth: recursion needs a contract")
        frame = Frame(func, self.bind(func, args, kwargs), func.closure)
        frame.on_yield = on_yield
        if not toplevel:
            self.v.inlined.add(func.qualname)
        self.frames.append(frame)
        try:
            self.exec_block(func.node.body)
            return None
        except _Return as r:
            return r.value
        finally:
            self.frames.pop()

    def call(self, func, args=(), kwargs=None):
        kwargs = kwargs or {}
        if isinstance(func, Bound):
            return self.call(func.func, [func.self_value] + list(args), kwargs)
        if isinstance(func, Partial):
            return func.fn(self, args, kwargs)
        if isinstance(func, Model):
            self.v.used_models.add(func.name)
            return func.fn(self, args, kwargs)
        if isinstance(func, UFunc):
            contract = self.v.contracts.get(func.qualname)
            if contract is not None:
                self.v.used_contracts.add(func.qualname)
                return contract.apply(self, args, kwargs)
            if is_generator(func.node):
                return self.generator(func, args, kwargs)
            return self.run_function(func, args, kwargs)
        if isinstance(func, Method):
            return self.call_method(func.owner, func.name, args, kwargs)
        if isinstance(func, Sym):
            if hasattr(func, "py_call"):
                return func.py_call(self, args, kwargs)
            raise Unsupported("call of %r" % (func,))
        if isinstance(func, type):
            return self.instantiate(func, args, kwargs)
        if callable(func):
            return self.call_real(func, args, kwargs)
        raise Unsupported("call of %r" % (func,))

    def generator(self, func, args, kwargs):
        """Generators are inlined at their consumer (list(), for, with)."""
        return Opaque("generator", func=func, args=args, kwargs=kwargs)

    def instantiate(self, cls, args, kwargs):
        if id(cls) in self.v.models:
            return self.call(self.v.models[id(cls)][1], args, kwargs)
        if isinstance(cls, type) and issubclass(cls, BaseException):
            exc = ExcVal(cls, args)
            return exc
        if user_class(cls):
            target = "%s:%s" % (cls.__module__, cls.__qualname__)
            contract = self.v.contracts.get(target)
            if contract is not None:
                self.v.used_contracts.add(target)
                return contract.apply(self, args, kwargs)
            obj = self.new_obj(cls)
            if "__dataclass_fields__" in cls.__dict__:
                fields = [f for f in cls.__dataclass_fields__.values() if f.init]
                values = dict(zip([f.name for f in fields], args))
                values.update(kwargs)
                for f in fields:
                    if f.name not in values:
                        import dataclasses
                        if f.default is dataclasses.MISSING:
                            raise PyRaise(ExcVal(TypeError, ("missing field %s" % f.name,)))
                        values[f.name] = f.default
                if len(args) > len(fields) or set(values) - {f.name for f in fields}:
                    raise PyRaise(ExcVal(TypeError, ("dataclass arguments",)))
                obj.attrs.update(values)
                return obj
            init = self.class_attr(cls, "__init__")
            if init is not None:
                self.call(Bound(obj, init), args, kwargs)
            elif args or kwargs:
                raise PyRaise(ExcVal(TypeError, ("no constructor",)))
            return obj
        return self.call_real(cls, args, kwargs)

    def ufunc(self, real):
        """The parsed source of a real function of /repo, or None."""
        code = getattr(real, "__code__", None)
        if code is None:
            return None
        path = os.path.realpath(code.co_filename)
        if not path.startswith(os.path.realpath(common.REPO) + os.sep):
            return None
        modname = real.__module__
        return self.v.find("%s:%s" % (modname, real.__qualname__))

    def class_attr(self, cls, name):
        """Looks a method up in the class hierarchy; returns a value."""
        for c in cls.__mro__:
            if name in c.__dict__:
                if c is object:
                    return None
                raw = c.__dict__[name]
                return self.wrap_class_attr(raw, c)
        return None

    def wrap_class_attr(self, raw, c):
        if isinstance(raw, staticmethod):
            f = self.ufunc(inspect.unwrap(raw.__func__))
            return ("static", f) if f else None
        if isinstance(raw, classmethod):
            return ("class", self.ufunc(inspect.unwrap(raw.__func__)))
        if isinstance(raw, property):
            return ("property", self.ufunc(raw.fget))
        if inspect.isfunction(raw):
            f = inspect.unwrap(raw)
            u = self.ufunc(f)
            return u if u is not None else raw
        return ("value", raw)

    def wrap_real(self, value):
        """A value of the real program read from a module or class."""
        if id(value) in self.v.models and self.v.models[id(value)][0] is value:
            return self.v.models[id(value)][1]
        if isinstance(value, (bool, int, float, str, bytes, type(None), tuple)):
            return value
        if isinstance(value, type):
            return value
        if self.v.wrap is not None:
            wrapped = self.v.wrap(self, value)
            if wrapped is not None:
                return wrapped
        if inspect.isfunction(value):
            f = inspect.unwrap(value)
            u = self.ufunc(f)
            if u is not None:
                return u
        return value

    def call_real(self, func, args, kwargs):
        if id(func) in self.v.models and self.v.models[id(func)][0] is func:
            return self.call(self.v.models[id(func)][1], args, kwargs)
        name = getattr(func, "__name__", str(func))
        handler = getattr(self, "builtin_" + name, None)
        if handler is not None and getattr(builtins, name, None) is func:
            return handler(*args, **kwargs)
        if all(concrete(a) for a in args) and all(concrete(a) for a in kwargs.values()) and func in PURE:
            try:
                return func(*args, **kwargs)
            except Exception as e:  # the interpreted program raises
                raise PyRaise(ExcVal(type(e), e.args))
        raise Unsupported("call of external %s%r" % (name, tuple(args)))

    # --------------------------------------------------------------- builtins
    def builtin_len(self, v):
        return self.length(v)

    def builtin_isinstance(self, value, cls):
        classes = cls if isinstance(cls, tuple) else (cls,)
        for c in classes:
            r = self.isinstance_one(value, c)
            if r:
                return True
        return False

    def isinstance_one(self, value, c):
        if hasattr(value, "py_isinstance"):
            return value.py_isinstance(self, c)
        if is_str(value):
            return issubclass(str, c)
        if is_bool(value):
            return issubclass(bool, c)
        if is_int(value):
            return issubclass(int, c)
        if is_real(value):
            return issubclass(float, c)
        if isinstance(value, PList):
            return issubclass(list, c)
        if isinstance(value, PDict):
            return issubclass(dict, c)
        if isinstance(value, PSet):
            return issubclass(set, c)
        if isinstance(value, tuple):
            return issubclass(tuple, c)
        if isinstance(value, ExcVal):
            return issubclass(value.cls, c)
        if isinstance(value, Obj):
            return issubclass(value.cls, c)
        if value is None:
            return c is type(None) or c is object
        if isinstance(value, (float, bytes)):
            return isinstance(value, c)
        raise Unsupported("isinstance of %r" % (value,))

    def builtin_enumerate(self, it, start=0):
        if isinstance(it, (Sym, Text)):
            inner = self.sym_iter(it)
            if inner is not None:
                if isinstance(inner, IndexIter):
                    return Opaque("iter", iter=IndexIter(inner.length, lambda I, i: (i + start, inner.elem(I, i))))
                return Opaque("iter", iter=EnumIter(inner, start))
        return self.new_list([(i, x) for i, x in enumerate(self.concrete_items(it), start)])

    def builtin_zip(self, *its):
        syms = [self.sym_iter(it) for it in its]
        if any(s is not None for s in syms):
            if all(isinstance(s, IndexIter) for s in syms):
                length = syms[0].length
                for s in syms[1:]:
                    length = z3.If(s.length < length, s.length, length) if not z3.eq(zint(s.length), zint(length)) else length
                return Opaque("iter", iter=IndexIter(length, lambda I, i: tuple(s.elem(I, i) for s in syms)))
            raise Unsupported("zip of symbolic sequences")
        return self.new_list(list(zip(*[self.concrete_items(it) for it in its])))

    def builtin_range(self, *args):
        if all(isinstance(a, int) for a in args):
            return self.new_list(list(range(*args)))
        if len(args) == 1:
            n = args[0]
            return Opaque("iter", iter=IndexIter(z3.If(n < 0, z3.IntVal(0), n), lambda I, i: i))
        if len(args) == 2:
            a, b = args
            return Opaque("iter", iter=IndexIter(z3.If(b < a, z3.IntVal(0), b - a), lambda I, i: a + i))
        raise Unsupported("range")

    def builtin_list(self, it=()):
        if isinstance(it, Sym) and hasattr(it, "py_list"):
            return it.py_list(self)
        return self.new_list(self.concrete_items(it))

    def builtin_tuple(self, it=()):
        if isinstance(it, Sym) and hasattr(it, "py_tuple"):
            return it.py_tuple(self)
        return tuple(self.concrete_items(it))

    def builtin_dict(self, it=None, **kw):
        if isinstance(it, Sym) and hasattr(it, "py_dict"):
            return it.py_dict(self, kw)
        items = {}
        if isinstance(it, PDict):
            items.update(it.items)
        elif isinstance(it, dict):
            items.update(it)
        elif it is not None:
            for k, v in self.concrete_items(it):
                items[k] = v
        items.update(kw)
        return self.new_dict(items)

    def builtin_set(self, it=None):
        if hasattr(it, "py_set"):
            return it.py_set(self)
        return PSet([] if it is None else self.concrete_items(it), self.ctx.new_serial())

    def builtin_str(self, v=""):
        if is_str(v):
            return v
        return S(self.ctx.fresh("str", STR))

    def builtin_bool(self, v=False):
        return self.truth(v)

    def builtin_max(self, *args):
        args = list(args) if len(args) > 1 else self.concrete_items(args[0])
        r = args[0]
        for a in args[1:]:
            if is_real(r) or is_real(a):
                r = max(r, a) if not is_z3(r) and not is_z3(a) else z3.If(zreal(a) > zreal(r), zreal(a), zreal(r))
                continue
            r = max(r, a) if isinstance(r, int) and isinstance(a, int) else z3.If(zint(a) > zint(r), zint(a), zint(r))
        return r

    def builtin_min(self, *args):
        args = list(args) if len(args) > 1 else self.concrete_items(args[0])
        r = args[0]
        for a in args[1:]:
            if is_real(r) or is_real(a):
                r = min(r, a) if not is_z3(r) and not is_z3(a) else z3.If(zreal(a) < zreal(r), zreal(a), zreal(r))
                continue
            r = min(r, a) if isinstance(r, int) and isinstance(a, int) else z3.If(zint(a) < zint(r), zint(a), zint(r))
        return r

    def builtin_int(self, v=0):
        if is_bool(v) and is_z3(v):
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if is_int(v):
            return v
        if isinstance(v, bool):
            return int(v)
        raise Unsupported("int()")

    def builtin_float(self, v=0.0):
        if is_real(v):
            return v
        if is_int(v) or is_bool(v):
            return zreal(self.builtin_int(v))
        if hasattr(v, "py_float"):
            return v.py_float(self)
        raise Unsupported("float of %r" % (v,))

    def builtin_any(self, it):
        for x in self.concrete_items(it):
            if self.truth_decide(x):
                return True
        return False

    def builtin_all(self, it):
        for x in self.concrete_items(it):
            if not self.truth_decide(x):
                return False
        return True

    def builtin_hasattr(self, obj, name):
        if hasattr(obj, "py_hasattr"):
            return obj.py_hasattr(self, name)
        if isinstance(obj, Obj):
            return name in obj.attrs or any(name in c.__dict__ for c in obj.cls.__mro__)
        raise Unsupported("hasattr of %r" % (obj,))

    def builtin_getattr(self, obj, name, *default):
        try:
            return self.getattr(obj, name)
        except PyRaise as e:
            if default and issubclass(e.exc.cls, AttributeError):
                return default[0]
            raise

    def builtin_sorted(self, it, key=None, reverse=False):
        items = self.concrete_items(it)
        if all(concrete(x) for x in items) and key is None:
            return self.new_list(sorted(items, reverse=reverse))
        raise Unsupported("sorted of symbolic values")

    def builtin_repr(self, v):
        return S(self.ctx.fresh("repr", STR))

    def builtin_print(self, *args, **kw):
        raise Unsupported("print without a model")

    def builtin_ord(self, v):
        if isinstance(v, Char):
            return v.code
        if isinstance(v, str) and len(v) == 1:
            return ord(v)
        raise Unsupported("ord")

    def builtin_callable(self, v):
        return isinstance(v, (UFunc, Bound, Model, Partial, type)) or callable(v)

    # ----------------------------------------------------------------- values
    def concrete_items(self, v):
        if isinstance(v, (list, tuple, str)):
            return list(v)
        if isinstance(v, range):
            return list(v)
        if isinstance(v, (set, frozenset)):
            return sorted(v, key=repr)
        if isinstance(v, PList):
            return list(v.items)
        if isinstance(v, PDict):
            return list(v.items)
        if isinstance(v, dict):
            return list(v)
        if isinstance(v, PSet):
            return sorted(v.items, key=repr)
        if isinstance(v, Opaque) and v.tag == "generator":
            out = []
            self.run_function(v.attrs["func"], v.attrs["args"], v.attrs["kwargs"], on_yield=out.append)
            return out
        if isinstance(v, Sym) and hasattr(v, "py_items"):
            return v.py_items(self)
        if isinstance(v, Char):
            return [v]
        raise Unsupported("iteration over %r needs a loop contract" % (v,))

    def sym_iter(self, v):
        if isinstance(v, Opaque) and v.tag == "iter":
            return v.attrs["iter"]
        if isinstance(v, Sym) and hasattr(v, "py_iter"):
            return v.py_iter(self)
        if isinstance(v, Text):
            return IndexIter(v.length, lambda I, i: I.text_at(v, i))
        return None

    def text_at(self, text, i):
        c = text.fn(i)
        self.ctx.assume(z3.And(c >= 0, c <= MAXCHAR))
        if text.on_read is not None:
            text.on_read(self, i)
        return Char(c)

    def length(self, v):
        if isinstance(v, (str, tuple, list, dict, bytes)):
            return len(v)
        if isinstance(v, S):
            return z3.Length(v.term)
        if isinstance(v, Char):
            return 1
        if isinstance(v, Text):
            return v.length
        if isinstance(v, (PList, PDict, PSet)):
            return len(v.items)
        if hasattr(v, "py_len"):
            return v.py_len(self)
        if isinstance(v, Obj):
            m = self.class_attr(v.cls, "__len__")
            if m is not None:
                return self.call(Bound(v, m))
        raise Unsupported("len of %r" % (v,))

    def truth(self, v):
        if v is None:
            return False
        if isinstance(v, bool):
            return v
        if is_z3(v):
            if v.sort() == BOOL:
                return v
            if v.sort() == INT:
                return v != 0
            raise Unsupported("truth of %s" % v.sort())
        if isinstance(v, (int, float, str, tuple, bytes, list, dict)):
            return bool(v)
        if hasattr(v, "py_truth"):
            return v.py_truth(self)
        if isinstance(v, (S, Text)) or hasattr(v, "py_len"):
            n = self.length(v)
            return n > 0 if is_z3(n) else bool(n)
        if isinstance(v, Char):
            return True
        if isinstance(v, (PList, PDict, PSet)):
            return bool(v.items)
        if isinstance(v, Obj):
            return True
        if isinstance(v, (UFunc, Bound, Model, ExcVal)) or isinstance(v, type) or inspect.ismodule(v):
            return True
        if isinstance(v, Poison):
            raise Unsupported("a value the loop contract does not describe is read")
        raise Unsupported("truth of %r" % (v,))

    def eq(self, a, b):
        if a is b and not isinstance(a, float):
            return True
        if hasattr(a, "py_eq"):
            return a.py_eq(self, b)
        if hasattr(b, "py_eq"):
            return b.py_eq(self, a)
        if a is None or b is None:
            return a is b
        if is_bool(a) and is_bool(b) or is_int(a) and is_int(b):
            if not is_z3(a) and not is_z3(b):
                return a == b
            return zval(a) == zval(b)
        if (is_bool(a) and is_int(b)) or (is_int(a) and is_bool(b)):
            if not is_z3(a) and not is_z3(b):
                return a == b
            return zint(self.builtin_int(a)) == zint(self.builtin_int(b))
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Char) and isinstance(y, str):
                    return (x.code == ord(y)) if len(y) == 1 else False
                if isinstance(x, Char) and isinstance(y, Char):
                    return x.code == y.code
                if isinstance(x, Text) and isinstance(y, Text) and x.fn is y.fn:
                    pass
                if isinstance(x, (Text, S)) and isinstance(y, str) and y == "":
                    return self.length(x) == 0
            return seq(a) == seq(b)
        if is_str(a) or is_str(b):
            return False
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return False
            return zand(*[self.eq(x, y) for x, y in zip(a, b)])
        if isinstance(a, PList) and isinstance(b, PList):
            if len(a.items) != len(b.items):
                return False
            return zand(*[self.eq(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, (int, float, bool)) and isinstance(b, (int, float, bool)):
            return a == b
        if (is_real(a) or is_real(b)) and all(is_real(x) or is_int(x) for x in (a, b)):
            return zreal(a) == zreal(b)
        if isinstance(a, (tuple, PList, PDict, int, bool)) and isinstance(b, (tuple, PList, PDict, int, bool)):
            if type(a) is not type(b):
                return False
        if isinstance(a, PDict) and isinstance(b, PDict):
            if set(a.items) != set(b.items):
                return False
            return zand(*[self.eq(a.items[k], b.items[k]) for k in a.items])
        if isinstance(a, type) and isinstance(b, type):
            return a is b
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return a == b
        if isinstance(a, Obj) and isinstance(b, Obj) and "__eq__" not in a.cls.__dict__:
            return a is b
        raise Unsupported("comparison of %r and %r" % (a, b))

    def contains(self, container, item):
        if hasattr(container, "py_contains"):
            return container.py_contains(self, item)
        if isinstance(container, str):
            if isinstance(item, str):
                return item in container
            if isinstance(item, Char):
                return charset(item.code, container)
            raise Unsupported("substring test")
        if isinstance(container, (S, Char)) and is_str(item):
            return z3.Contains(seq(container), seq(item))
        if isinstance(container, (tuple, list, PList, PSet, PDict, dict, set, frozenset)):
            items = container.items if isinstance(container, (PList, PSet, PDict)) else container
            results = [self.eq(x, item) for x in items]
            if any(r is True for r in results):
                return True
            results = [r for r in results if r is not False]
            if not results:
                return False
            return z3.Or(*results) if len(results) > 1 else results[0]
        if isinstance(container, Opaque) and container.tag == "keys":
            return self.contains(container.attrs["of"], item)
        raise Unsupported("membership in %r" % (container,))

    def add(self, a, b):
        if is_str(a) and is_str(b):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            if a == "" if isinstance(a, str) else False:
                return b
            if b == "" if isinstance(b, str) else False:
                return a
            return S(cat(seq(a), seq(b)))
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
        if isinstance(a, PList) and isinstance(b, PList):
            return self.new_list(a.items + b.items)
        if hasattr(a, "py_add"):
            return a.py_add(self, b)
        if hasattr(b, "py_radd"):
            return b.py_radd(self, a)
        if (is_int(a) or is_bool(a) or is_real(a)) and (is_int(b) or is_bool(b) or is_real(b)):
            return self.arith(ast.Add(), a, b)
        if is_str(a) or is_str(b):
            raise PyRaise(ExcVal(TypeError, ("can only concatenate str",)))
        raise Unsupported("addition of %r and %r" % (a, b))

    def arith(self, op, a, b):
        a = self.builtin_int(a) if is_bool(a) else a
        b = self.builtin_int(b) if is_bool(b) else b
        if not (is_int(a) and is_int(b)):
            if isinstance(a, (int, float)) and isinstance(b, (int, float)):
                return {ast.Add: a + b, ast.Sub: a - b, ast.Mult: a * b}[type(op)] if type(op) in (ast.Add, ast.Sub, ast.Mult) else a / b
            if (is_real(a) or is_real(b)) and all(is_real(x) or is_int(x) for x in (a, b)) and type(op) in (ast.Add, ast.Sub, ast.Mult):
                x, y = zreal(a), zreal(b)
                return x + y if isinstance(op, ast.Add) else x - y if isinstance(op, ast.Sub) else x * y
            for x in (a, b):
                if hasattr(x, "py_arith"):
                    return x.py_arith(self, op, a, b)
            if isinstance(op, ast.Mult) and isinstance(a, PList) and isinstance(b, int):
                return self.new_list(a.items * b)
            raise Unsupported("arithmetic on %r and %r" % (a, b))
        t = type(op)
        if t is ast.Add:
            return a + b
        if t is ast.Sub:
            return a - b
        if t is ast.Mult:
            return a * b
        if not is_z3(a) and not is_z3(b):
            if t is ast.FloorDiv:
                return a // b
            if t is ast.Mod:
                return a % b
            if t is ast.BitOr:
                return a | b
            if t is ast.BitAnd:
                return a & b
            if t is ast.LShift:
                return a << b
            if t is ast.RShift:
                return a >> b
            if t is ast.Pow:
                return a**b
        if t in (ast.FloorDiv, ast.Mod) and isinstance(b, int) and b > 0:
            return a / b if t is ast.FloorDiv else a % b
        raise Unsupported("operator %s" % t.__name__)

    # ------------------------------------------------------------- attributes
    def getattr(self, obj, name):
        if isinstance(obj, Obj):
            if name in obj.attrs:
                value = obj.attrs[name]
                if value is POISON:
                    raise Unsupported("attribute %s is read after a loop that may have changed it" % name)
                return value
            if hasattr(obj, "py_missing"):
                return obj.py_missing(self, name)
            m = self.class_attr(obj.cls, name)
            if m is None:
                if name == "__class__":
                    return obj.cls
                if name == "__dict__":
                    return Opaque("__dict__", of=obj)
                raise PyRaise(ExcVal(AttributeError, (name,)))
            if isinstance(m, tuple):
                kind, f = m
                if kind == "static":
                    return f
                if kind == "class":
                    return Bound(obj.cls, f)
                if kind == "property":
                    return self.call(Bound(obj, f))
                return self.wrap_real(f)
            return Bound(obj, m)
        if isinstance(obj, Super):
            for c in obj.value.cls.__mro__[obj.value.cls.__mro__.index(obj.cls) + 1:]:
                if name in c.__dict__:
                    m = self.wrap_class_attr(c.__dict__[name], c)
                    if isinstance(m, UFunc):
                        return Bound(obj.value, m)
                    raise Unsupported("super().%s" % name)
            raise PyRaise(ExcVal(AttributeError, (name,)))
        if isinstance(obj, Sym):
            return obj.py_getattr(self, name)
        if isinstance(obj, ExcVal):
            if name == "args":
                return obj.args
            if name in obj.attrs:
                return obj.attrs[name]
            return Opaque("exception attribute")
        if inspect.ismodule(obj):
            if not hasattr(obj, name):
                raise PyRaise(ExcVal(AttributeError, (name,)))
            return self.wrap_real(getattr(obj, name))
        if isinstance(obj, type):
            if user_class(obj):
                m = self.class_attr(obj, name)
                if m is None:
                    if name == "__name__":
                        return obj.__name__
                    raise PyRaise(ExcVal(AttributeError, (name,)))
                if isinstance(m, tuple):
                    kind, f = m
                    if kind == "static":
                        return f
                    if kind == "class":
                        return Bound(obj, f)
                    if kind == "value":
                        return self.wrap_real(f)
                    raise Unsupported("class property")
                return m
            if hasattr(obj, name):
                return self.wrap_real(getattr(obj, name))
        if isinstance(obj, Opaque) and name in obj.attrs:
            return obj.attrs[name]
        if isinstance(obj, Poison):
            raise Unsupported("a value the loop contract does not describe is read")
        return Method(obj, name)

    def setattr(self, obj, name, value):
        if isinstance(obj, Obj):
            self.check_write(obj, name)
            obj.attrs[name] = value
            return
        if isinstance(obj, Sym) and hasattr(obj, "py_setattr"):
            obj.py_setattr(self, name, value)
            return
        raise Unsupported("attribute assignment on %r" % (obj,))

    def getitem(self, obj, index):
        if hasattr(obj, "py_getitem"):
            return obj.py_getitem(self, index)
        if isinstance(index, slice):
            return self.getslice(obj, index)
        if isinstance(obj, (PDict, dict)):
            items = obj.items if isinstance(obj, PDict) else obj
            if concrete(index):
                if index in items:
                    v = items[index]
                    return self.wrap_real(v) if isinstance(obj, dict) else v
                raise PyRaise(ExcVal(KeyError, (index,)))
            for k, v in items.items():
                if self.ctx.decide(self.eq(k, index)):
                    return v
            raise PyRaise(ExcVal(KeyError, (index,)))
        if isinstance(obj, (tuple, PList, str, list)) and is_int(index):
            items = obj.items if isinstance(obj, PList) else obj
            if isinstance(index, int):
                if not -len(items) <= index < len(items):
                    raise PyRaise(ExcVal(IndexError, ("index",)))
                return items[index]
            for i in range(len(items)):
                if self.ctx.decide(z3.Or(index == i, index == i - len(items))):
                    return items[i]
            raise PyRaise(ExcVal(IndexError, ("index",)))
        if isinstance(obj, (Text, S)) and is_int(index):
            n = self.length(obj)
            if self.ctx.decide(z3.And(index >= 0, index < n)):
                i = zint(index)
            elif self.ctx.decide(z3.And(index < 0, index >= -n)):
                i = n + index
            else:
                raise PyRaise(ExcVal(IndexError, ("string index out of range",)))
            if isinstance(obj, Text):
                return self.text_at(obj, i)
            c = obj.term[i]
            self.ctx.assume(z3.And(c >= 0, c <= MAXCHAR))
            return Char(c)
        raise Unsupported("subscript of %r" % (obj,))

    def getslice(self, obj, sl):
        if sl.step is not None:
            raise Unsupported("slice step")
        if isinstance(obj, (tuple, str, PList, list)):
            lo, hi = sl.start, sl.stop
            if (lo is None or isinstance(lo, int)) and (hi is None or isinstance(hi, int)):
                items = obj.items if isinstance(obj, PList) else obj
                r = items[lo:hi]
                return self.new_list(r) if isinstance(obj, (PList, list)) else r
        if isinstance(obj, (S, str)):
            t = seq(obj)
            n = z3.Length(t)
            lo = zint(sl.start if sl.start is not None else 0)
            hi = zint(sl.stop) if sl.stop is not None else n
            return S(py_slice(t, n, lo, hi))
        raise Unsupported("slice of %r" % (obj,))

    def setitem(self, obj, index, value):
        if hasattr(obj, "py_setitem"):
            return obj.py_setitem(self, index, value)
        if isinstance(obj, PDict) and concrete(index):
            self.check_write(Guarded(obj), "*")
            obj.items[index] = value
            return None
        if isinstance(obj, PList) and isinstance(index, int):
            self.check_write(Guarded(obj), "*")
            if not -len(obj.items) <= index < len(obj.items):
                raise PyRaise(ExcVal(IndexError, ("index",)))
            obj.items[index] = value
            return None
        raise Unsupported("item assignment on %r" % (obj,))

    # --------------------------------------------------------- builtin methods
    def call_method(self, obj, name, args, kwargs):
        if isinstance(obj, Sym):
            return obj.py_method(self, name, args, kwargs)
        if is_str(obj):
            return self.str_method(obj, name, args, kwargs)
        if isinstance(obj, PList):
            return self.list_method(obj, name, args)
        if isinstance(obj, (PDict, dict)):
            return self.dict_method(obj, name, args)
        if isinstance(obj, PSet):
            if name == "add":
                self.check_write(Guarded(obj), "*")
                obj.items.add(args[0])
                return None
        if isinstance(obj, (tuple, bytes)) and all(concrete(a) for a in args) and concrete(obj):
            return getattr(obj, name)(*args)
        if inspect.ismodule(obj):
            raise Unsupported("module attribute %s" % name)
        if hasattr(obj, name):
            real = getattr(obj, name)
            if id(real) in self.v.models:
                return self.call(self.v.models[id(real)][1], args, kwargs)
        raise Unsupported("method %s of %r" % (name, obj))

    def list_method(self, obj, name, args):
        if name == "append":
            self.check_write(Guarded(obj), "*")
            obj.items.append(args[0])
            return None
        if name == "extend":
            self.check_write(Guarded(obj), "*")
            obj.items.extend(self.concrete_items(args[0]))
            return None
        if name == "pop":
            self.check_write(Guarded(obj), "*")
            try:
                return obj.items.pop(*args)
            except IndexError:
                raise PyRaise(ExcVal(IndexError, ("pop",)))
        if name == "insert" and isinstance(args[0], int):
            self.check_write(Guarded(obj), "*")
            obj.items.insert(*args)
            return None
        raise Unsupported("list.%s" % name)

    def dict_method(self, obj, name, args):
        items = obj.items if isinstance(obj, PDict) else obj
        if name == "keys":
            return self.new_list(list(items))
        if name == "values":
            return self.new_list(list(items.values()))
        if name == "items":
            return self.new_list(list(items.items()))
        if name == "get":
            default = args[1] if len(args) > 1 else None
            if concrete(args[0]):
                return items.get(args[0], default)
            try:
                return self.getitem(obj, args[0])
            except PyRaise:
                return default
        if name == "update" and isinstance(obj, PDict):
            self.check_write(Guarded(obj), "*")
            other = args[0]
            obj.items.update(other.items if isinstance(other, PDict) else other)
            return None
        if name == "copy":
            return self.new_dict(items)
        raise Unsupported("dict.%s" % name)

    def str_method(self, obj, name, args, kwargs):
        if name == "join":
            it = args[0]
            if isinstance(it, Sym) and hasattr(it, "py_join"):
                return it.py_join(self, obj)
            items = self.concrete_items(it)
            if not all(is_str(x) for x in items):
                raise PyRaise(ExcVal(TypeError, ("join",)))
            out = ""
            for n, x in enumerate(items):
                if n:
                    out = self.add(out, obj)
                out = self.add(out, x)
            return out
        if name == "format" and isinstance(obj, str):
            return self.format(obj, args, kwargs)
        if isinstance(obj, str) and all(concrete(a) for a in args) and not kwargs:
            try:
                r = getattr(obj, name)(*args)
            except Exception as e:
                raise PyRaise(ExcVal(type(e), e.args))
            return self.new_list(r) if isinstance(r, list) else r
        if name == "replace" and len(args) == 2 and all(isinstance(a, str) for a in args) and len(args[0]) == 1:
            self.v.used_models.add("str.replace of one character")
            return S(replace_fn(args[0], args[1])(seq(obj)))
        if name == "startswith" and len(args) == 1 and isinstance(obj, (S, Char)) and is_str(args[0]):
            return z3.PrefixOf(seq(args[0]), seq(obj))
        if name == "endswith" and len(args) == 1 and isinstance(obj, (S, Char)) and is_str(args[0]):
            return z3.SuffixOf(seq(args[0]), seq(obj))
        if isinstance(obj, Char) and name in CHAR_PREDICATES and not args:
            self.v.used_models.add("str.%s of one character" % name)
            return CHAR_PREDICATES[name](obj.code)
        if name == "encode" and isinstance(obj, Char) and all(isinstance(a, str) for a in args):
            self.v.used_models.add("str.encode of one character")
            return EncodedChar(obj.code)
        raise Unsupported("str.%s on a symbolic string" % name)

    def format(self, template, args, kwargs):
        out = ""
        auto = 0
        for text, field, spec, conv in _string.Formatter().parse(template):
            out = self.add(out, text)
            if field is None:
                continue
            if field == "":
                value = args[auto]
                auto += 1
            elif field.isdigit():
                value = args[int(field)]
            elif field in kwargs:
                value = kwargs[field]
            else:
                raise Unsupported("format field %r" % field)
            out = self.add(out, self.format_value(value, conv, spec))
        return out

    def format_value(self, value, conv, spec):
        if not conv and not spec and is_str(value):
            return value
        if all(concrete(x) for x in (value,)) and not is_z3(value):
            conv_fn = {"r": repr, "s": str, None: lambda v: v, "": lambda v: v}[conv]
            try:
                return format(conv_fn(value), spec or "")
            except Exception:
                raise Unsupported("format")
        return S(self.ctx.fresh("fmt", STR))

    # ------------------------------------------------------------ expressions
    def eval(self, node):
        method = getattr(self, "eval_" + type(node).__name__, None)
        if method is None:
            raise Unsupported("expression %s" % type(node).__name__)
        return method(node)

    def eval_Constant(self, node):
        return node.value

    def eval_Name(self, node):
        frame = self.frames[-1]
        try:
            v = frame.lookup_local(node.id)
        except KeyError:
            v = _MISSING
        if v is POISON:
            raise Unsupported("local %s is read although the loop contract does not describe it" % node.id)
        if v is not _MISSING:
            return v
        globs = frame.func.globs
        if node.id in assigned_names(frame.func.node.body if isinstance(frame.func.node.body, list) else []) \
                and node.id not in frame.globals_declared:
            raise PyRaise(ExcVal(UnboundLocalError, (node.id,)))
        if node.id in globs:
            return self.wrap_real(globs[node.id])
        if hasattr(builtins, node.id):
            return self.wrap_real(getattr(builtins, node.id))
        raise PyRaise(ExcVal(NameError, (node.id,)))

    def eval_Attribute(self, node):
        return self.getattr(self.eval(node.value), node.attr)

    def eval_Subscript(self, node):
        obj = self.eval(node.value)
        return self.getitem(obj, self.eval_index(node.slice))

    def eval_index(self, node):
        if isinstance(node, ast.Slice):
            return slice(*[None if x is None else self.eval(x) for x in (node.lower, node.upper, node.step)])
        return self.eval(node)

    def eval_Tuple(self, node):
        return tuple(self.eval_elts(node.elts))

    def eval_List(self, node):
        return self.new_list(self.eval_elts(node.elts))

    def eval_Set(self, node):
        return PSet(self.eval_elts(node.elts), self.ctx.new_serial())

    def eval_elts(self, elts):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                out.extend(self.concrete_items(self.eval(e.value)))
            else:
                out.append(self.eval(e))
        return out

    def eval_Dict(self, node):
        items = {}
        for k, v in zip(node.keys, node.values):
            if k is None:
                other = self.eval(v)
                items.update(other.items if isinstance(other, PDict) else other)
                continue
            key = self.eval(k)
            if not concrete(key):
                raise Unsupported("dictionary display with a symbolic key")
            items[key] = self.eval(v)
        return self.new_dict(items)

    def super_object(self):
        """Zero-argument super() in a method."""
        frame = self.frames[-1]
        func = frame.func
        owner = func.qualname.split(":")[1].split(".")[0]
        cls = func.globs.get(owner)
        first = func.node.args.args[0].arg
        return Super(cls, frame.lookup_local(first))

    def eval_Call(self, node):
        if isinstance(node.func, ast.Name) and node.func.id == "super" and not node.args and not node.keywords:
            return self.super_object()
        func = self.eval(node.func)
        args = []
        for a in node.args:
            if isinstance(a, ast.Starred):
                args.extend(self.concrete_items(self.eval(a.value)))
            elif isinstance(a, ast.GeneratorExp):
                args.append(self.lazy_generator(a))
            else:
                args.append(self.eval(a))
        kwargs = {}
        for k in node.keywords:
            if k.arg is None:
                v = self.eval(k.value)
                if isinstance(v, (PDict, dict)):
                    kwargs.update(v.items if isinstance(v, PDict) else v)
                else:
                    raise Unsupported("** of %r" % (v,))
            else:
                kwargs[k.arg] = self.eval(k.value)
        return self.call(func, args, kwargs)

    def eval_BinOp(self, node):
        a = self.eval(node.left)
        b = self.eval(node.right)
        return self.binop(node.op, a, b)

    def binop(self, op, a, b):
        if isinstance(op, ast.Add):
            return self.add(a, b)
        if isinstance(op, ast.MatMult) or hasattr(a, "py_binop") or hasattr(b, "py_binop"):
            for x in (a, b):
                if hasattr(x, "py_binop"):
                    return x.py_binop(self, op, a, b)
            raise Unsupported("operator %s" % type(op).__name__)
        if isinstance(op, ast.Mult) and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(op, ast.Mult) and isinstance(a, PList) and len(a.items) == 1 and is_z3(b):
            hook = self.v.repeat_model
            if hook is not None:
                return hook(self, a.items[0], b)
            raise Unsupported("list repetition")
        return self.arith(op, a, b)

    def eval_UnaryOp(self, node):
        v = self.eval(node.operand)
        if isinstance(node.op, ast.Not):
            return znot(self.truth(v))
        if isinstance(node.op, ast.USub):
            return -v
        raise Unsupported("unary operator")

    def eval_BoolOp(self, node):
        is_and = isinstance(node.op, ast.And)
        v = None
        for i, e in enumerate(node.values):
            v = self.eval(e)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v)
            if isinstance(t, bool):
                if t != is_and:
                    return v
                continue
            if self.ctx.decide(t) != is_and:
                return v if not is_bool(v) else (not is_and)
        return v

    def eval_Compare(self, node):
        left = self.eval(node.left)
        results = []
        for i, (op, rnode) in enumerate(zip(node.ops, node.comparators)):
            if i and not isinstance(rnode, (ast.Name, ast.Constant, ast.Attribute)):
                r = zand(*results)
                if not self.ctx.decide(r):
                    return False
                results = []
            right = self.eval(rnode)
            results.append(self.compare(op, left, right))
            left = right
        if len(results) == 1:
            return results[0]
        return zand(*[self.truth(r) for r in results])

    def compare(self, op, a, b):
        t = type(op)
        if t is ast.Eq:
            return self.eq(a, b)
        if t is ast.NotEq:
            return znot(self.eq(a, b))
        if t is ast.In:
            return self.contains(b, a)
        if t is ast.NotIn:
            return znot(self.contains(b, a))
        if t in (ast.Is, ast.IsNot):
            r = self.identity(a, b)
            return r if t is ast.Is else znot(r)
        if hasattr(a, "py_compare"):
            return a.py_compare(self, op, a, b)
        if hasattr(b, "py_compare"):
            return b.py_compare(self, op, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple):
            return self.tuple_compare(t, a, b)
        a = self.builtin_int(a) if is_bool(a) else a
        b = self.builtin_int(b) if is_bool(b) else b
        if (is_real(a) or is_real(b)) and all(is_real(x) or is_int(x) for x in (a, b)) and (is_z3(a) or is_z3(b)):
            a, b = zreal(a), zreal(b)
        if (is_int(a) or isinstance(a, float)) and (is_int(b) or isinstance(b, float)) or (is_z3(a) and is_z3(b)):
            return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b}[t]()
        if a is None or b is None:
            raise PyRaise(ExcVal(TypeError, ("ordering of None",)))
        raise Unsupported("ordering of %r and %r" % (a, b))

    def tuple_compare(self, t, a, b):
        """Lexicographic order."""
        if len(a) != len(b):
            raise Unsupported("ordering of tuples of different lengths")
        strict = t in (ast.Lt, ast.Gt)
        lt = ast.Lt() if t in (ast.Lt, ast.LtE) else ast.Gt()
        result = not strict
        for x, y in reversed(list(zip(a, b))):
            result = zor(self.compare(lt, x, y), zand(self.eq(x, y), result))
        return result

    def identity(self, a, b):
        if hasattr(a, "py_is"):
            return a.py_is(self, b)
        if hasattr(b, "py_is"):
            return b.py_is(self, a)
        if a is None or b is None:
            return a is b
        if is_bool(a) and is_bool(b):
            if is_z3(a) or is_z3(b):
                return zbool(a) == zbool(b)
            return a is b
        if is_bool(a) != is_bool(b):
            return False
        if isinstance(a, (Obj, Sym, PList, PDict, PSet, ExcVal, type)) or isinstance(b, (Obj, Sym, PList, PDict, PSet, ExcVal, type)):
            return a is b
        raise Unsupported("identity of %r and %r" % (a, b))

    def eval_IfExp(self, node):
        return self.eval(node.body if self.truth_decide(self.eval(node.test)) else node.orelse)

    def eval_JoinedStr(self, node):
        out = ""
        for part in node.values:
            if isinstance(part, ast.Constant):
                out = self.add(out, part.value)
            else:
                value = self.eval(part.value)
                conv = {-1: None, 114: "r", 115: "s", 97: "a"}[part.conversion]
                spec = "" if part.format_spec is None else self.eval(part.format_spec)
                if not isinstance(spec, str):
                    raise Unsupported("format spec")
                out = self.add(out, self.format_value(value, conv, spec))
        return out

    def eval_Lambda(self, node):
        frame = self.frames[-1]
        return UFunc(node, frame.func.globs, frame.func.qualname + ".<lambda>", closure=frame)

    def eval_NamedExpr(self, node):
        v = self.eval(node.value)
        self.assign(node.target, v)
        return v

    def eval_Starred(self, node):
        raise Unsupported("starred expression")

    def eval_Yield(self, node):
        frame = self.frames[-1]
        value = None if node.value is None else self.eval(node.value)
        if frame.on_yield is None:
            raise Unsupported("yield outside an inlined generator")
        # the consumer runs outside of this frame
        self.frames.pop()
        try:
            return frame.on_yield(value)
        finally:
            self.frames.append(frame)

    def lazy_generator(self, node):
        return self.comprehension(node, "list")

    def eval_ListComp(self, node):
        return self.comprehension(node, "list")

    def eval_GeneratorExp(self, node):
        return self.comprehension(node, "list")

    def eval_SetComp(self, node):
        return self.comprehension(node, "set")

    def eval_DictComp(self, node):
        return self.comprehension(node, "dict")

    def comprehension(self, node, kind):
        frame = self.frames[-1]
        inner = Frame(frame.func, {}, frame)
        first = self.eval(node.generators[0].iter)
        hook = self.v.loops.get((frame.func.qualname, "comp%d" % self.comp_ordinal(node)))
        it = self.sym_iter(first)
        if it is not None:
            if hook is None:
                hook = getattr(self.v, "comprehension_model", None)
            if hook is None:
                raise Unsupported("comprehension over a symbolic sequence without a contract")
            return hook(self, frame, node, first)
        out = []
        self.frames.append(inner)
        inner.node = node
        try:
            self.comp_level(node, 0, first, out, kind)
        finally:
            self.frames.pop()
        if kind == "list":
            return self.new_list(out)
        if kind == "set":
            return PSet(out, self.ctx.new_serial())
        return self.new_dict(dict(out))

    def comp_ordinal(self, node):
        comps = [n for n in ast.walk(self.frames[-1].func.node)
                 if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp))]
        comps.sort(key=lambda n: (n.lineno, n.col_offset))
        return comps.index(node) if node in comps else -1

    def comp_level(self, node, level, first, out, kind):
        gen = node.generators[level]
        it = first if level == 0 else self.eval(gen.iter)
        for x in self.concrete_items(it):
            self.assign(gen.target, x)
            if not all(self.truth_decide(self.eval(c)) for c in gen.ifs):
                continue
            if level + 1 < len(node.generators):
                self.comp_level(node, level + 1, None, out, kind)
            elif kind == "dict":
                k = self.eval(node.key)
                out.append((k, self.eval(node.value)))
            else:
                out.append(self.eval(node.elt))

    # ------------------------------------------------------------- statements
    def exec_block(self, body):
        for stmt in body:
            self.exec(stmt)

    def exec(self, node):
        self.frames[-1].node = node
        method = getattr(self, "exec_" + type(node).__name__, None)
        if method is None:
            raise Unsupported("statement %s" % type(node).__name__)
        method(node)

    def exec_Expr(self, node):
        self.eval(node.value)

    def exec_Pass(self, node):
        pass

    def exec_Import(self, node):
        for a in node.names:
            module = importlib.import_module(a.name)
            self.frames[-1].store(a.asname or a.name.split(".")[0], module if a.asname else sys.modules[a.name.split(".")[0]])

    def exec_ImportFrom(self, node):
        frame = self.frames[-1]
        package = frame.func.globs.get("__package__") or ""
        module = importlib.import_module(("." * node.level) + (node.module or ""), package) if node.level else \
            importlib.import_module(node.module)
        for a in node.names:
            frame.store(a.asname or a.name, self.wrap_real(getattr(module, a.name)))

    def exec_Global(self, node):
        raise Unsupported("global statement")

    def exec_Nonlocal(self, node):
        self.frames[-1].nonlocals.update(node.names)

    def exec_Assign(self, node):
        value = self.eval(node.value)
        for t in node.targets:
            self.assign(t, value)

    def exec_AnnAssign(self, node):
        if node.value is not None:
            self.assign(node.target, self.eval(node.value))

    def assign(self, target, value):
        if isinstance(target, ast.Name):
            self.frames[-1].store(target.id, value)
        elif isinstance(target, ast.Attribute):
            self.setattr(self.eval(target.value), target.attr, value)
        elif isinstance(target, ast.Subscript):
            obj = self.eval(target.value)
            self.setitem(obj, self.eval_index(target.slice), value)
        elif isinstance(target, (ast.Tuple, ast.List)):
            if hasattr(value, "py_unpack"):
                items = value.py_unpack(self, len(target.elts))
            else:
                items = list(value) if isinstance(value, tuple) else self.concrete_items(value)
            if any(isinstance(t, ast.Starred) for t in target.elts):
                raise Unsupported("starred assignment")
            if len(items) != len(target.elts):
                raise PyRaise(ExcVal(ValueError, ("unpack",)))
            for t, v in zip(target.elts, items):
                self.assign(t, v)
        else:
            raise Unsupported("assignment target")

    def exec_AugAssign(self, node):
        t = node.target
        if isinstance(t, ast.Name):
            self.frames[-1].store(t.id, self.binop(node.op, self.eval(ast.copy_location(ast.Name(t.id, ast.Load()), t)), self.eval(node.value)))
        elif isinstance(t, ast.Attribute):
            obj = self.eval(t.value)
            self.setattr(obj, t.attr, self.binop(node.op, self.getattr(obj, t.attr), self.eval(node.value)))
        elif isinstance(t, ast.Subscript):
            obj = self.eval(t.value)
            index = self.eval_index(t.slice)
            self.setitem(obj, index, self.binop(node.op, self.getitem(obj, index), self.eval(node.value)))
        else:
            raise Unsupported("augmented assignment")

    def exec_Delete(self, node):
        for t in node.targets:
            if isinstance(t, ast.Name):
                frame = self.frames[-1]
                if t.id in frame.locals:
                    del frame.locals[t.id]
                continue
            if isinstance(t, ast.Subscript):
                obj = self.eval(t.value)
                index = self.eval_index(t.slice)
                if hasattr(obj, "py_delitem"):
                    obj.py_delitem(self, index)
                    continue
                if isinstance(obj, (PDict, PList)) and concrete(index):
                    self.check_write(Guarded(obj), "*")
                    if isinstance(obj, PDict) and index not in obj.items:
                        raise PyRaise(ExcVal(KeyError, (index,)))
                    del obj.items[index]
                    continue
            raise Unsupported("del")

    def exec_If(self, node):
        self.exec_block(node.body if self.truth_decide(self.eval(node.test)) else node.orelse)

    def exec_Return(self, node):
        raise _Return(None if node.value is None else self.eval(node.value))

    def exec_Raise(self, node):
        if node.exc is None:
            exc = getattr(self, "handling", None)
            if not exc:
                raise Unsupported("bare raise")
            raise PyRaise(exc[-1])
        exc = self.eval(node.exc)
        if node.cause is not None:
            self.eval(node.cause)
        if isinstance(exc, type):
            exc = self.instantiate(exc, [], {})
        if not isinstance(exc, ExcVal):
            raise Unsupported("raise of %r" % (exc,))
        raise PyRaise(exc)

    def exec_Assert(self, node):
        if not self.truth_decide(self.eval(node.test)):
            raise PyRaise(ExcVal(AssertionError))

    def exec_Break(self, node):
        raise _Break()

    def exec_Continue(self, node):
        raise _Continue()

    def exec_FunctionDef(self, node):
        frame = self.frames[-1]
        if node.decorator_list:
            raise Unsupported("decorated nested function")
        frame.store(node.name, UFunc(node, frame.func.globs, "%s.<locals>.%s" % (frame.func.qualname, node.name), closure=frame))

    def exec_Try(self, node):
        frame = self.frames[-1]
        pending = None
        try:
            try:
                self.exec_block(node.body)
            except PyRaise as e:
                self.restore_frames(frame)
                self.handle(node, e)
            else:
                self.exec_block(node.orelse)
        except (PyRaise, _Return, _Break, _Continue) as signal:
            pending = signal
        self.restore_frames(frame)
        if node.finalbody:
            self.exec_block(node.finalbody)
        if pending is not None:
            raise pending

    def restore_frames(self, frame):
        while self.frames and self.frames[-1] is not frame:
            self.frames.pop()

    def handle(self, node, e):
        for h in node.handlers:
            if h.type is None:
                matched = True
            else:
                classes = self.eval(h.type)
                classes = classes if isinstance(classes, tuple) else (classes,)
                matched = any(issubclass(e.exc.cls, c) for c in classes)
            if not matched and h.type is not None:
                # the contract may only name a base class of what is raised
                if any(issubclass(c, e.exc.cls) for c in classes) and e.exc.attrs.get("exact") is False:
                    matched = self.ctx.choose("exception subclass")
            if matched:
                frame = self.frames[-1]
                if h.name:
                    frame.store(h.name, e.exc)
                stack = self.__dict__.setdefault("handling", [])
                stack.append(e.exc)
                try:
                    self.exec_block(h.body)
                finally:
                    stack.pop()
                    if h.name:
                        frame.locals.pop(h.name, None)
                return
        raise e

    def exec_With(self, node):
        self.with_items(node, 0)

    def with_items(self, node, n):
        if n == len(node.items):
            self.exec_block(node.body)
            return
        item = node.items[n]
        manager = self.eval(item.context_expr)
        frame = self.frames[-1]

        def body(value):
            if item.optional_vars is not None:
                self.assign(item.optional_vars, value)
            self.with_items(node, n + 1)

        if isinstance(manager, Opaque) and manager.tag == "generator":
            signals = []

            def on_yield(value):
                if signals:
                    raise PyRaise(ExcVal(RuntimeError, ("generator didn't stop",)))
                self.frames.append(frame)
                depth = len(self.frames)
                try:
                    body(value)
                    signals.append(None)
                except (_Return, _Break, _Continue) as s:
                    signals.append(s)
                finally:
                    del self.frames[depth:]
                    if self.frames and self.frames[-1] is frame:
                        self.frames.pop()
                return None

            self.run_function(manager.attrs["func"], manager.attrs["args"], manager.attrs["kwargs"], on_yield=on_yield)
            if not signals:
                raise PyRaise(ExcVal(RuntimeError, ("generator didn't yield",)))
            if signals[0] is not None:
                raise signals[0]
            return
        if isinstance(manager, Sym) and hasattr(manager, "py_enter"):
            value = manager.py_enter(self)
            pending = None
            try:
                body(value)
            except PyRaise as e:
                self.restore_frames(frame)
                if manager.py_exit(self, e.exc):
                    return
                raise
            except (_Return, _Break, _Continue) as s:
                pending = s
            self.restore_frames(frame)
            manager.py_exit(self, None)
            if pending is not None:
                raise pending
            return
        raise Unsupported("with %r" % (manager,))

    # ------------------------------------------------------------------ loops
    def loop_contract(self, node):
        frame = self.frames[-1]
        func = frame.func
        if frame.loop_ordinals is None:
            loops = [n for n in ast.walk(func.node) if isinstance(n, (ast.While, ast.For))]
            # loops of nested functions have their own numbering
            nested = set()
            for n in ast.walk(func.node):
                if isinstance(n, ast.FunctionDef) and n is not func.node:
                    nested.update(id(x) for x in ast.walk(n))
            loops = [n for n in loops if id(n) not in nested]
            loops.sort(key=lambda n: (n.lineno, n.col_offset))
            frame.loop_ordinals = {id(n): i for i, n in enumerate(loops)}
        ordinal = frame.loop_ordinals.get(id(node))
        return self.v.loops.get((func.qualname, ordinal)), "%s loop %s" % (func.qualname.split(":")[-1], ordinal)

    def exec_While(self, node):
        contract, label = self.loop_contract(node)
        if contract is None:
            # a loop without a contract is unrolled while its test is decided
            # without forking; anything else needs an invariant
            for _ in range(10000):
                t = self.truth(self.eval(node.test))
                if not isinstance(t, bool):
                    t2 = z3.simplify(t)
                    if z3.is_true(t2) or z3.is_false(t2):
                        t = z3.is_true(t2)
                    else:
                        raise Unsupported("%s: loop over symbolic data without a contract" % label)
                if not t:
                    self.exec_block(node.orelse)
                    return
                try:
                    self.exec_block(node.body)
                except _Break:
                    return
                except _Continue:
                    continue
            raise Unsupported("loop does not finish")
        self.cut_loop(node, contract, label, None)

    def exec_For(self, node):
        it_value = self.eval(node.iter)
        it = self.sym_iter(it_value)
        if it is None:
            if isinstance(it_value, Opaque) and it_value.tag == "generator":
                self.for_generator(node, it_value)
                return
            try:
                for x in self.concrete_items(it_value):
                    self.assign(node.target, x)
                    try:
                        self.exec_block(node.body)
                    except _Continue:
                        continue
            except _Break:
                return
            self.exec_block(node.orelse)
            return
        contract, label = self.loop_contract(node)
        if contract is None:
            # the iterated value may carry the contract of loops over it
            contract = getattr(it, "contract", None)
        if contract is None:
            raise Unsupported("%s: loop over a symbolic sequence without a contract" % label)
        self.cut_loop(node, contract, label, it)

    def for_generator(self, node, gen):
        frame = self.frames[-1]

        class Stop(Exception):
            pass

        signal = []

        def on_yield(value):
            self.frames.append(frame)
            depth = len(self.frames)
            try:
                self.assign(node.target, value)
                self.exec_block(node.body)
            except _Continue:
                pass
            except (_Break, _Return) as s:
                signal.append(s)
                raise Stop()
            finally:
                del self.frames[depth:]
                if self.frames and self.frames[-1] is frame:
                    self.frames.pop()

        try:
            self.run_function(gen.attrs["func"], gen.attrs["args"], gen.attrs["kwargs"], on_yield=on_yield)
        except Stop:
            self.restore_frames(frame)
            if isinstance(signal[0], _Return):
                raise signal[0]
            return
        self.exec_block(node.orelse)

    def cut_loop(self, node, contract, label, it):
        frame = self.frames[-1]
        ctx = self.ctx
        L = LoopView(self, frame)
        L.it = it
        if it is not None:
            L.state = it.start(self)
        names = assigned_names(node.body + ([] if it is None else [ast.Expr(node.target)]))
        L.rename = rename_map(frame, contract, names)
        L.ghost = contract.enter(L) or {}
        for name, formula in contract.inv(L):
            ctx.prove("%s: invariant on entry: %s" % (label, name), formula)
        # forget everything the loop may change
        if it is not None:
            names |= {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)}
        if it is None:
            names |= {n.target.id for n in ast.walk(node.test) if isinstance(n, ast.NamedExpr)}
        for f in nested_nonlocals(frame.func.node):
            # a nested function called from the loop may assign these
            if any(isinstance(n, ast.Call) for n in ast.walk(node)):
                names |= f
        serial = ctx.serial
        actual = {L.rename.get(n, n): k for n, k in contract.havoc.items()}
        for name in sorted(names | set(actual)):
            kind = actual.get(name)
            if kind is not None:
                if name not in names:
                    # mutated in place: the abstraction replaces the object,
                    # and no alias of the old one may be used any more
                    self.retire(frame.lookup_local(name))
                value = kind(L) if callable(kind) else self.fresh_kind(kind, name)
            else:
                try:
                    current = frame.lookup_local(name)
                except KeyError:
                    current = _MISSING
                if current is _MISSING:
                    value = POISON
                elif is_bool(current):
                    value = ctx.fresh(name, BOOL)
                elif is_int(current):
                    value = ctx.fresh(name, INT)
                elif is_real(current):
                    value = ctx.fresh(name, REAL)
                elif isinstance(current, (str, S, Char)):
                    value = S(ctx.fresh(name, STR))
                else:
                    value = POISON
            frame.store(name, value)
        allowed = []
        for obj, field, kind in contract.modifies(L):
            allowed.append((obj, field))
            self.check_write(obj, field)
            if kind is not None:
                self.retire(obj.attrs.get(field))
                obj.attrs[field] = kind(L) if callable(kind) else self.fresh_kind(kind, field)
        if it is not None:
            L.state = it.fresh(self)
        for formula in contract.assumes(L):
            ctx.assume(formula)
        for name, formula in contract.inv(L):
            ctx.assume(formula, contract.light)
        if not ctx.replaying():
            ctx.feasible_or_end()
        guard = WriteGuard(serial, allowed, "%s: frame" % label)
        self.guards.append(guard)
        before = contract.variant(L)
        try:
            return self.cut_iteration(node, contract, label, it, L, guard, before)
        except PathEnd:
            raise
        except BaseException:
            # left for good by return or an exception: what follows is after
            # the loop, and no later iteration depends on its frame
            if guard in self.guards:
                self.guards.remove(guard)
            raise

    def cut_iteration(self, node, contract, label, it, L, guard, before):
        frame, ctx = self.frames[-1], self.ctx
        if it is None:
            go = self.truth_decide(self.eval(node.test))
        else:
            go = not ctx.decide(it.done(self, L.state))
        if not go:
            self.guards.remove(guard)
            self.exec_block(node.orelse)
            return
        if it is not None:
            value, L.next_state = it.next(self, L.state)
            self.assign(node.target, value)
        try:
            self.exec_block(node.body)
        except _Break:
            self.guards.remove(guard)
            return
        except _Continue:
            pass
        if it is not None:
            L.state = L.next_state
        L.frame = frame
        for name, formula in contract.inv(L):
            ctx.prove("%s: invariant preserved: %s" % (label, name), formula)
        after = contract.variant(L)
        if before is not None:
            ctx.prove("%s: terminates (variant decreases and is bounded)" % label, z3.And(after < before, before >= 0))
        raise PathEnd()


def value_kind(value):
    if is_bool(value):
        return "bool"
    if is_int(value):
        return "int"
    if isinstance(value, (str, S, Char)):
        return "str"
    if isinstance(value, (PList, PDict, PSet, Sym)):
        return "container"
    return "other"


def rename_map(frame, contract, names):
    """Contract locals that do not exist are matched with the only new local
    of the same kind that the loop changes (renamed locals); a wrong match can
    only make an obligation fail."""
    out = {}
    known = set(contract.havoc)
    for name, kind in contract.havoc.items():
        try:
            frame.lookup_local(name)
            continue
        except KeyError:
            pass
        want = kind if isinstance(kind, str) else contract.kinds.get(name, "container")
        found = []
        for local, value in frame.locals.items():
            if local in known or local in out.values() or value_kind(value) != want:
                continue
            if want != "container" and local not in names:
                continue
            found.append(local)
        if want == "container" and len(found) > 1:
            # in order of first assignment, like the contract lists them
            missing = [n for n in contract.havoc if n not in frame.locals and contract.kinds.get(n, "container") == "container"]
            if len(missing) == len(found) + len(set(out) & set(missing)):
                found = found[:1]
        if len(found) == 1:
            out[name] = found[0]
    return out


class Retired:
    """The content of a container replaced by a loop abstraction."""

    def _fail(self, *a):
        raise Unsupported("a container is used through an alias of what a loop contract abstracts")

    __iter__ = __len__ = __getitem__ = __setitem__ = __contains__ = __bool__ = _fail

    def __getattr__(self, name):
        self._fail()


class EnumIter(SIter):

    def __init__(self, inner, start):
        self.inner = inner
        self.begin = start

    def start(self, interp):
        return (self.inner.start(interp), z3.IntVal(self.begin))

    def fresh(self, interp):
        n = interp.ctx.fresh("n", INT)
        interp.ctx.assume(n >= self.begin)
        return (self.inner.fresh(interp), n)

    def done(self, interp, state):
        return self.inner.done(interp, state[0])

    def next(self, interp, state):
        value, nxt = self.inner.next(interp, state[0])
        return (state[1], value), (nxt, state[1] + 1)


class EncodedChar:
    """``char.encode("utf-8")``: only its length is known."""

    def __init__(self, code):
        self.code = code

    def py_len(self, interp):
        return utf8_len(self.code)


def utf8_len(code):
    return z3.If(code < 0x80, z3.IntVal(1), z3.If(code < 0x800, z3.IntVal(2), z3.If(code < 0x10000, z3.IntVal(3), z3.IntVal(4))))


CHAR_PREDICATES = {n: z3.Function("char_" + n, INT, BOOL) for n in ("isspace", "isdigit", "isalpha", "isalnum", "isupper", "islower")}


class Guarded:
    """Adapter giving built-in containers a serial for frame checks."""

    frozen = False
    label = "container"

    def __init__(self, container):
        self.serial = container.serial
        self.container = container
        self.key = id(container)


def _permits(guard, obj, field):
    key = obj.key if isinstance(obj, Guarded) else id(obj)
    return obj.serial > guard.serial or (key, field) in guard.allowed or (key, "*") in guard.allowed


WriteGuard.permits = _permits


def nested_nonlocals(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.FunctionDef) and n is not node:
            names = set()
            for x in ast.walk(n):
                if isinstance(x, ast.Nonlocal):
                    names.update(x.names)
            if names:
                out.append(names)
    return out


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.Lambda)):
            continue
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        stack.extend(ast.iter_child_nodes(n))
    return False


def user_class(cls):
    module = sys.modules.get(getattr(cls, "__module__", ""))
    path = getattr(module, "__file__", None)
    return bool(path) and os.path.realpath(path).startswith(os.path.realpath(common.REPO) + os.sep)


def concrete(v):
    if isinstance(v, (bool, int, float, str, bytes, type(None), type)):
        return True
    if isinstance(v, tuple):
        return all(concrete(x) for x in v)
    if isinstance(v, (frozenset,)):
        return True
    return False


def zint(v):
    return z3.IntVal(v) if isinstance(v, int) else v


def zval(v):
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    return v


def zor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def py_slice(t, n, lo, hi):
    lo2 = z3.If(lo < 0, z3.If(lo + n < 0, z3.IntVal(0), lo + n), z3.If(lo > n, n, lo))
    hi2 = z3.If(hi < 0, z3.If(hi + n < 0, z3.IntVal(0), hi + n), z3.If(hi > n, n, hi))
    return z3.SubSeq(t, lo2, z3.If(hi2 > lo2, hi2 - lo2, z3.IntVal(0)))


Verifier.repeat_model = None
PURE = {len, min, max, sorted, abs, ord, chr, str, int, repr, bool, tuple, frozenset, float, range}
