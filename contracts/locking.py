"""Contracts of the key's lock and of build_fst (C13).

The lock is the POSIX advisory lock on the anchor file; ``World.locked`` is
the ghost fact that this process holds it.  It becomes true only by a
successful exclusive flock of the anchor's descriptor and false by unlocking
or closing that descriptor."""
import fcntl
import json
import math
import os
import platform
import time
import uuid

import z3

from lib import pydv
from lib.pydv import BOOL, INT, REAL, STR, Contract, Loop, Method, Obj, Opaque, PDict, PList, S, Sym, seq, zint
from contracts import fs, osworld
from contracts.fs import P, bad, yes
from contracts.osworld import Bytes, Fd, Policy, World, fail, fresh_bundle, os_error, world

CACHE = "tn.cache:"
BUNDLE = CACHE + "CacheBundle."


def errors():
    import tn.cache
    return tn.cache


class BodyError(Exception):
    """Whatever leaves the locked region."""


class LockPolicy(Policy):
    """Without the lock only directories and the anchor file are made."""

    tag = "C13"

    def effect(self, I, w, kind, *what):
        bundle = I.globals_ghost["bundle"]
        if kind in ("mkdir", "mkdirs"):
            return
        held = w.get("locked")
        if kind == "open":
            path, flags, at = what
            same = path.same(bundle.attrs["lock_path"]) if isinstance(path, P) and at is None else z3.BoolVal(False)
            I.ctx.prove("only the lock's anchor is opened for writing", z3.Or(same, held))
        elif kind in ("write", "ftruncate"):
            fd = what[0]
            same = fd.path.same(bundle.attrs["lock_path"]) if isinstance(fd.path, P) else z3.BoolVal(False)
            I.ctx.prove("only the lock's anchor is written", z3.Or(same, held))
            if kind == "ftruncate":
                I.ctx.prove("the anchor is truncated by the holder only", held)
        else:
            I.ctx.prove("%s happens under the key's lock" % kind, held)


def start(I, policy=None):
    w = I.globals_ghost["fs"] = I.sym(World(I, policy or LockPolicy()))
    b = I.globals_ghost["bundle"] = fresh_bundle(I, known=False)
    return w, b


def released(w, extra=()):
    yield "no descriptor is left open", w.get("fds") == 0
    yield "the lock is not held", z3.Not(w.get("locked"))


# ------------------------------------------------------------------ time, lock
def monotonic(I, args, kwargs):
    w = world(I)
    now = I.ctx.fresh("now", REAL)
    I.ctx.assume(now >= w.get("now"))
    w.set(I, "now", now)
    return now


def sleep(I, args, kwargs):
    w = world(I)
    d = pydv.zreal(args[0])
    deadline = I.globals_ghost.get("deadline")
    I.ctx.prove("a sleep is not negative", d >= 0)
    if deadline is not None:
        I.ctx.prove("a sleep does not pass the deadline", z3.Or(d == 0, w.get("now") + d <= deadline))
    now = I.ctx.fresh("now", REAL)
    I.ctx.assume(now >= w.get("now") + d)
    w.set(I, "now", now)


def flock(I, args, kwargs):
    w = world(I)
    fd, op = osworld.use(I, args[0]), args[1]
    if op == fcntl.LOCK_UN:
        I.ctx.prove("the lock is kept for the whole region", yes(w.region != "inside"))
        fail(I, "flock", OSError)
        w.released(I, fd)
        return None
    I.ctx.prove("the lock is exclusive and an attempt does not block", yes(isinstance(op, int) and bool(op & fcntl.LOCK_EX) and bool(op & fcntl.LOCK_NB) and not op & fcntl.LOCK_SH))
    bundle = I.globals_ghost["bundle"]
    I.ctx.prove("the lock is taken on the anchor", fd.path.same(bundle.attrs["lock_path"]) if isinstance(fd.path, P) else z3.BoolVal(False))
    if I.ctx.choose("the lock is free"):
        fd.set(I, "locked", z3.BoolVal(True))
        w.set(I, "locked", z3.BoolVal(True))
        return None
    if I.ctx.choose("the lock is busy (BlockingIOError)"):
        raise pydv.PyRaise(os_error(I, BlockingIOError))
    raise pydv.PyRaise(os_error(I, OSError))


class LockWorld(World):
    """Closing the descriptor of a held lock releases the lock."""

    region = "before"

    def closed(self, I, fd):
        if isinstance(fd, Fd):
            I.ctx.prove("the lock is kept for the whole region", z3.Or(z3.Not(fd.get("locked")), yes(self.region != "inside")))
            self.released(I, fd)
        World.closed(self, I, fd)

    def released(self, I, fd):
        self.set(I, "locked", z3.And(self.get("locked"), z3.Not(fd.get("locked"))))
        fd.set(I, "locked", z3.BoolVal(False))


# ------------------------------------------------------------------ contracts
class EnsureParent(Contract):
    """Makes the key's directory (verified for C12)."""

    target = BUNDLE + "_ensure_parent"

    def apply(self, I, args, kwargs):
        if I.ctx.choose("_ensure_parent refuses"):
            raise pydv.PyRaise(pydv.ExcVal(errors().CachePathError, ()))
        fail(I, "_ensure_parent", OSError)


class WriteAll(Contract):
    target = CACHE + "_write_all"

    def setup(self, I):
        w, b = start(I)
        fd = w.opened(I, Fd(I, path=b.attrs["lock_path"]))
        return [fd, I.sym(Bytes(I))], {}

    def failed(self, I, old, args, kwargs, exc):
        yield "the descriptor stays open", yes(args[0].get("open"))

    raises = {OSError: failed}

    def post(self, I, old, args, kwargs, result):
        yield "the descriptor stays open", yes(args[0].get("open"))

    def apply(self, I, args, kwargs):
        fd = osworld.use(I, args[0])
        world(I).effect(I, "write", fd, args[1])
        fail(I, "_write_all", OSError)


class WriteLoop(Loop):

    havoc = {"offset": "int"}

    def offset(self, L):
        return zint(L["offset"])

    def inv(self, L):
        data = [v for v in L.frame.locals.values() if isinstance(v, Bytes)][0]
        yield "the position is inside the data", z3.And(self.offset(L) >= 0, self.offset(L) <= data.length)

    def variant(self, L):
        data = [v for v in L.frame.locals.values() if isinstance(v, Bytes)][0]
        return data.length - self.offset(L)


class OpenAnchor(Contract):
    target = BUNDLE + "_open_lock_anchor"

    def setup(self, I):
        w, b = start(I)
        return [b], {}

    def frame(self, I, args, kwargs):
        w = world(I)
        return [(w, "fds")]

    def snapshot(self, I, args, kwargs):
        return world(I).get("fds")

    def result(self, I, args, kwargs):
        w = world(I)
        return w.opened(I, Fd(I, path=args[0].attrs["lock_path"]))

    def post(self, I, old, args, kwargs, result):
        yield "an open descriptor of the anchor is returned", z3.And(yes(result.get("open")), result.path.same(args[0].attrs["lock_path"])) if isinstance(
            result, Fd) and isinstance(result.path, P) else z3.BoolVal(False)
        yield "one descriptor is open", world(I).get("fds") == old + 1
        yield "it is a regular file, opened without following a link", z3.And(result.get("stat").is_reg(), yes(bool(result.flags & os.O_NOFOLLOW))) if isinstance(
            result, Fd) else z3.BoolVal(False)

    def apply(self, I, args, kwargs):
        w = world(I)
        for c in (errors().CachePathError, OSError):
            if I.ctx.choose("_open_lock_anchor raises %s" % c.__name__):
                raise pydv.PyRaise(pydv.ExcVal(c, ()) if c is not OSError else os_error(I))
        return self.result(I, args, kwargs)

    def refused(self, I, old, args, kwargs, exc):
        yield "no descriptor is left open", world(I).get("fds") == old

    @property
    def raises(self):
        return {OSError: OpenAnchor.refused, errors().CachePathError: OpenAnchor.refused}


class Diagnostic(Contract):
    """Reading the holder's name never fails and changes nothing."""

    target = BUNDLE + "_read_owner_diagnostic"
    min_returns = 4

    def setup(self, I):
        w, b = start(I)
        fd = w.opened(I, Fd(I, path=b.attrs["lock_path"]))
        return [fd], {}

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("owner", STR))

    def post(self, I, old, args, kwargs, result):
        yield "a text is returned", yes(pydv.is_str(result))
        yield "the descriptor stays open", yes(args[0].get("open"))


class WriteOwner(Contract):
    target = BUNDLE + "_write_owner_payload"

    def setup(self, I):
        w, b = start(I)
        fd = w.opened(I, Fd(I, path=b.attrs["lock_path"]))
        fd.set(I, "locked", z3.BoolVal(True))
        w.set(I, "locked", z3.BoolVal(True))
        return [fd, I.new_dict({"token": S(I.ctx.fresh("token", STR))})], {}

    def post(self, I, old, args, kwargs, result):
        yield "the descriptor stays open", yes(args[0].get("open"))

    def failed(self, I, old, args, kwargs, exc):
        yield "the descriptor stays open", yes(args[0].get("open"))

    def apply(self, I, args, kwargs):
        fd = osworld.use(I, args[0])
        I.ctx.prove("the owner is recorded by the holder", world(I).get("locked"))
        fail(I, "_write_owner_payload", OSError)
        if I.ctx.choose("_write_owner_payload raises CacheError"):
            raise pydv.PyRaise(pydv.ExcVal(errors().CacheError, ()))

    @property
    def raises(self):
        return {OSError: WriteOwner.failed, errors().CacheError: WriteOwner.failed}


class Environment(Sym):
    frozen = True

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name != "get" or args[0] != errors().LOCK_TIMEOUT_ENV:
            bad("os.environ.%s" % name)
        I.globals_ghost["environment"] = "set" if I.ctx.choose("the variable is set") else None
        if I.globals_ghost["environment"] is None:
            return args[1] if len(args) > 1 else None
        return I.sym(Number(I))

    def py_contains(self, I, key):
        bad("in os.environ")


class Number(Sym):
    """A text or number given as a timeout."""

    frozen = True

    def __init__(self, I):
        super().__init__()
        self.parsed = None

    def py_float(self, I):
        I.globals_ghost["timeout"] = "no number"
        if I.ctx.choose("not a number"):
            raise pydv.PyRaise(pydv.ExcVal(ValueError, ()))
        for x in (float("inf"), float("-inf"), float("nan")):
            if I.ctx.choose("the number is %s" % x):
                I.globals_ghost["timeout"] = "not finite"
                return x
        x = I.ctx.fresh("timeout", REAL)
        I.globals_ghost["timeout"] = x
        return x

    def py_getattr(self, I, name):
        bad("timeout.%s" % name)

    def py_truth(self, I):
        return I.ctx.choose("the text is not empty")


def isfinite(I, args, kwargs):
    x = args[0]
    return math.isfinite(x) if isinstance(x, (int, float)) else True


def valid_timeout(I):
    t = I.globals_ghost.get("timeout")
    return t >= 0 if pydv.is_z3(t) else z3.BoolVal(t is None)


class ConfiguredTimeout(Contract):
    target = CACHE + "_configured_lock_timeout"
    min_returns = 2

    def setup(self, I):
        start(I)
        return [], {}

    def result(self, I, args, kwargs):
        x = I.ctx.fresh("timeout", REAL)
        return x

    def post(self, I, old, args, kwargs, result):
        ghost = I.globals_ghost
        ok = pydv.is_real(result)
        yield "a finite non-negative number", z3.And(pydv.zreal(result) >= 0, yes(not isinstance(result, float) or math.isfinite(result))) if ok else z3.BoolVal(False)
        if "environment" in ghost:
            want = pydv.zreal(float(errors().DEFAULT_LOCK_TIMEOUT_SECONDS)) if ghost["environment"] is None else ghost["timeout"]
            yield "it is the configured or the default timeout", pydv.zreal(result) == want if pydv.is_z3(want) and ok else z3.BoolVal(False)

    def invalid(self, I, old, args, kwargs, exc):
        if "environment" in I.globals_ghost:
            yield "only an invalid timeout is refused", z3.And(yes(I.globals_ghost["environment"] is not None), z3.Not(valid_timeout(I)))

    raises = {ValueError: invalid}


class Lock(Contract):
    target = BUNDLE + "lock"
    min_returns = 1

    def setup(self, I):
        start(I)
        w = I.globals_ghost["fs"] = I.sym(LockWorld(I, LockPolicy()))
        w.region = "before"
        self.w = w
        self.timeout = None if I.ctx.choose("the configured timeout") else I.sym(Number(I))
        if self.timeout is None and I.ctx.choose("given as None"):
            return [I.globals_ghost["bundle"], None], {}
        return [I.globals_ghost["bundle"]], ({} if self.timeout is None else {"timeout": self.timeout})

    def frame(self, I, args, kwargs):
        w = self.w
        return [(w, "fds"), (w, "locked"), (w, "now")]

    def yielded(self, I, old, args, kwargs, value):
        w = self.w
        I.ctx.prove("the lock is held when the region is entered", w.get("locked"))
        I.ctx.prove("the region is entered once", yes(w.region == "before"))
        w.region = "inside"
        outcome = I.ctx.choose("the region fails")
        w.region = "failed" if outcome else "done"
        if outcome:
            raise pydv.PyRaise(pydv.ExcVal(BodyError, ()))

    def post(self, I, old, args, kwargs, result):
        yield "the region ran", yes(self.w.region == "done")
        for o in released(self.w):
            yield o

    def body_failed(self, I, old, args, kwargs, exc):
        yield "the region's own error comes out", yes(self.w.region == "failed")
        for o in released(self.w):
            yield o

    def timed_out(self, I, old, args, kwargs, exc):
        w = self.w
        yield "the region was not entered", yes(w.region == "before")
        deadline = I.globals_ghost.get("deadline")
        yield "not before the deadline", w.get("now") >= deadline if deadline is not None else z3.BoolVal(False)
        a = exc.args
        yield "the documented path and timeout", yes(len(a) == 3 and a[0] is I.globals_ghost["bundle"].attrs["lock_path"] and a[1] is I.globals_ghost.get("used timeout"))
        for o in released(w):
            yield o

    def invalid(self, I, old, args, kwargs, exc):
        yield "only an invalid timeout is refused", z3.Not(valid_timeout(I)) if self.timeout is not None else z3.BoolVal(True)
        yield "the region was not entered", yes(self.w.region == "before")
        for o in released(self.w):
            yield o

    def refused(self, I, old, args, kwargs, exc):
        yield "the region was not entered", yes(self.w.region == "before")
        for o in released(self.w):
            yield o

    @property
    def raises(self):
        e = errors()
        return {OSError: Lock.refused, ValueError: Lock.invalid, e.CacheError: Lock.refused, e.CacheLockTimeout: Lock.timed_out, BodyError: Lock.body_failed}


class LockLoop(Loop):

    def enter(self, L):
        I = L.I
        reals = [v for v in L.frame.locals.values() if pydv.is_z3(v) and pydv.is_real(v)]
        # the latest time computed before the loop is the deadline
        deadline = [v for v in reals if not z3.is_const(v)]
        timeout = [v for v in reals if z3.is_const(v)]
        if len(deadline) != 1:
            bad("the lock's deadline")
        I.globals_ghost["deadline"] = deadline[0]
        used = [v for n, v in L.frame.locals.items() if n == "timeout"] or timeout
        I.globals_ghost["used timeout"] = used[0]
        w = world(I)
        fd = [v for v in L.frame.locals.values() if isinstance(v, Fd)]
        if len(fd) != 1:
            bad("the anchor's descriptor")
        I.ctx.prove("the deadline is the timeout from now", deadline[0] <= w.get("now") + used[0])
        return {"fd": fd[0], "start": w.get("now")}

    def modifies(self, L):
        w = world(L.I)
        yield w, "now", lambda L: L.I.ctx.fresh("now", REAL)
        yield w, "locked", "bool"
        yield L.fd, "locked", "bool"

    def inv(self, L):
        w = world(L.I)
        flags = [v for v in L.frame.locals.values() if pydv.is_bool(v)]
        yield "time does not run backwards", w.get("now") >= L.start
        yield "the lock is not held while it is waited for", z3.Or(z3.Not(w.get("locked")), *[pydv.zbool(f) for f in flags])
        yield "a lock believed taken is held", z3.And([z3.Implies(pydv.zbool(f), w.get("locked")) for f in flags])
        yield "the lock is the descriptor's", w.get("locked") == L.fd.get("locked")

    def variant(self, L):
        # whole 0.05 s steps until the deadline
        w = world(L.I)
        left = L.I.globals_ghost["deadline"] - w.get("now")
        flags = [pydv.zbool(v) for v in L.frame.locals.values() if pydv.is_bool(v)]
        return z3.If(z3.Or(*flags), z3.IntVal(0), z3.If(left <= 0, z3.IntVal(1), z3.ToInt(left * 20) + 2))


# ------------------------------------------------------------------ build_fst
class BundleModel(Sym):
    """The bundle as build_fst sees it."""

    def __init__(self, I):
        # checked: a load under this lock found nothing; published: the pair
        super().__init__(held=False, checked=False, invalid=False, pair=None, published=None)

    def py_getattr(self, I, name):
        if name == "path":
            return Opaque("path")
        if name == "source_fingerprint":
            return I.globals_ghost["fingerprint"]
        return Method(self, name)

    def trouble(self, I, label):
        if I.ctx.choose("%s fails" % label):
            raise pydv.PyRaise(pydv.ExcVal(errors().CacheError, ()))

    def py_method(self, I, name, args, kwargs):
        if name == "load" and not args:
            self.trouble(I, "load")
            if I.ctx.choose("a complete bundle is there"):
                pair = (Opaque("tagger"), Opaque("verbalizer"))
                self.set(I, "pair", pair)
                return pair
            if self.get("held"):
                self.set(I, "checked", True)
            return None
        if name == "lock":
            return I.sym(Holding(self))
        if name == "recover_residuals":
            self.locked(I, name)
            self.trouble(I, name)
            # what is there may be another bundle now
            self.set(I, "checked", False)
            return None
        if name == "remove_invalid":
            self.locked(I, name)
            I.ctx.prove("only a bundle found invalid under the lock is removed", yes(self.get("checked")))
            self.trouble(I, name)
            return None
        if name == "publish":
            self.locked(I, name)
            built = I.globals_ghost["processor"].attrs
            I.ctx.prove("the built pair is published", yes(len(args) == 2 and not kwargs and args[0] is built.get("tagger") and args[1] is built.get("verbalizer") and I.globals_ghost["builds"].get("count") == 1
                                                           and isinstance(args[0], Built) and isinstance(args[1], Built) and (args[0].side, args[1].side) == ("tagger", "verbalizer")))
            I.ctx.prove("the sources are the ones the bundle is named after", yes(I.globals_ghost["builds"].get("unchanged")))
            self.trouble(I, name)
            self.set(I, "published", (args[0], args[1]))
            return None
        bad("bundle.%s" % name)

    def locked(self, I, name):
        I.ctx.prove("%s happens under the key's lock" % name, yes(self.get("held")))


class Holding(Sym):
    """with bundle.lock(): (contract of ``lock``)."""

    def __init__(self, bundle):
        super().__init__()
        self.bundle = bundle

    def py_enter(self, I):
        I.ctx.prove("the lock is not taken twice", yes(not self.bundle.get("held")))
        if I.ctx.choose("the lock times out"):
            raise pydv.PyRaise(pydv.ExcVal(errors().CacheLockTimeout, ()))
        self.bundle.set(I, "held", True)
        self.bundle.set(I, "checked", False)
        return None

    def py_exit(self, I, exc):
        self.bundle.set(I, "held", False)
        return False


class Built(Sym):
    """A graph built by the grammar."""

    frozen = True

    def __init__(self, side):
        super().__init__()
        self.side = side

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "optimize":
            return self
        bad("graph.%s" % name)


class Builds(Sym):
    """Ghost: constructions of the grammar, and the sources they saw."""

    def __init__(self):
        super().__init__(count=0, unchanged=False)


class Grammar(Contract):
    """build_tagger_and_verbalizer / build_tagger + build_verbalizer."""

    def __init__(self, name):
        self.name = name

    def py(self, I, args, kwargs):
        g = I.globals_ghost
        if args or kwargs:
            bad("arguments of %s" % self.name)
        b, builds = g["bundle model"], g["builds"]
        if g["cached"]:
            I.ctx.prove("the grammar is built under the key's lock", yes(b.get("held")))
            I.ctx.prove("a finished bundle was looked for under the lock before building", z3.Or(yes(b.get("checked")), g["overwrite"]))
        if I.ctx.choose("%s fails" % self.name):
            raise pydv.PyRaise(pydv.ExcVal(RuntimeError, ()))
        p = g["processor"]
        if self.name != "build_verbalizer":
            I.ctx.prove("the grammar is built once", yes(builds.get("count") == 0))
            builds.set(I, "count", builds.get("count") + 1)
            I.setattr(p, "tagger", I.sym(Built("tagger")))
        if self.name != "build_tagger":
            I.setattr(p, "verbalizer", I.sym(Built("verbalizer")))
        builds.set(I, "unchanged", False)
        return None


class GrammarProcessor(pydv.Obj):
    """A processor whose class has one of the two builder forms."""

    def py_missing(self, interp, name):
        g = interp.globals_ghost
        if name in g["forms"]:
            return pydv.Model(lambda I, args, kwargs: Grammar(name).py(I, args, kwargs), "grammar construction: " + name)
        m = interp.class_attr(self.cls, name)
        if isinstance(m, tuple) and m[0] == "static":
            return m[1]
        if isinstance(m, tuple) or m is None:
            raise pydv.PyRaise(pydv.ExcVal(AttributeError, (name,)))
        return pydv.Bound(self, m)

    def py_hasattr(self, interp, name):
        return name in self.attrs or name in interp.globals_ghost["forms"]


class SourceFingerprint(Contract):
    target = "tn.cache:production_source_fingerprint"

    def apply(self, I, args, kwargs):
        g = I.globals_ghost
        # equal to the bundle's, or the sources were changed meanwhile
        if I.ctx.choose("the sources are unchanged"):
            if g["builds"].get("count"):
                g["builds"].set(I, "unchanged", True)
            return g["fingerprint"]
        return S(pydv.cat(seq("other"), g["fingerprint"].term))


class NewBundle(Contract):
    target = "tn.cache:CacheBundle"

    def apply(self, I, args, kwargs):
        g = I.globals_ghost
        v = dict(zip(("cache_root", "prefix", "ordertype", "cache_config", "source_fingerprint"), args))
        v.update(kwargs)
        I.ctx.assume(seq(v["source_fingerprint"]) == g["fingerprint"].term)
        return g["bundle model"]


class DefaultDir(Contract):
    target = "tn.cache:default_cache_dir"

    def apply(self, I, args, kwargs):
        return Opaque("root")


class Logger(Sym):
    frozen = True

    def py_getattr(self, I, name):
        return pydv.Model(lambda I, args, kwargs: None, "logging has no effect")


class BuildFst(Contract):
    target = "tn.processor:Processor.build_fst"
    min_returns = 4

    def setup(self, I):
        import tn.processor
        g = I.globals_ghost
        g["fingerprint"] = S(I.ctx.fresh("fingerprint", STR))
        g["bundle model"] = I.sym(BundleModel(I))
        g["builds"] = I.sym(Builds())
        g["forms"] = ("build_tagger_and_verbalizer",) if I.ctx.choose("builds both at once") else ("build_tagger", "build_verbalizer")
        p = g["processor"] = GrammarProcessor(tn.processor.Processor, I.ctx.new_serial(), {"name": "name", "ordertype": "tn", "tagger": None, "verbalizer": None})
        kind = I.ctx.choose("no cache")
        g["cached"] = not kind
        g["overwrite"] = I.ctx.fresh("overwrite", BOOL)
        root = False if kind else (None if I.ctx.choose("the default directory") else Opaque("root"))
        return [p, "zh_tn", root, g["overwrite"], I.new_dict({})], {}

    def frame(self, I, args, kwargs):
        g = I.globals_ghost
        b = g["bundle model"]
        return [(args[0], "tagger"), (args[0], "verbalizer"), (b, "*"), (g["builds"], "*")]

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        p, b, builds = args[0].attrs, g["bundle model"], g["builds"]
        yield "the lock is released", yes(not b.get("held"))
        if g["cached"]:
            pair = b.get("pair")
            yield "the pair in use is the pair that was loaded last, tagger first", yes(pair is not None and p["tagger"] is pair[0] and p["verbalizer"] is pair[1])
            yield "a grammar that was built was published", yes(builds.get("count") == 0 or b.get("published") is not None)
            yield "an overwriting construction builds", z3.Implies(g["overwrite"], yes(builds.get("count") == 1))
        else:
            yield "the pair in use is the built one", yes(builds.get("count") == 1 and isinstance(p["tagger"], Built) and isinstance(p["verbalizer"], Built)
                                                          and (p["tagger"].side, p["verbalizer"].side) == ("tagger", "verbalizer"))

    def failed(self, I, old, args, kwargs, exc):
        yield "the lock is released", yes(not I.globals_ghost["bundle model"].get("held"))

    @property
    def raises(self):
        return {RuntimeError: BuildFst.failed}


class Uuid(Sym):
    frozen = True
    known = False

    def py_getattr(self, I, name):
        if name == "hex":
            x = S(I.ctx.fresh("hex", STR))
            if self.known:
                I.ctx.assume(z3.And(z3.Length(x.term) == 32, fs.free_of(x, "/"), fs.free_of(x, "\0"), fs.free_of(x, ".")))
            return x
        bad("uuid.%s" % name)


def loads(I, args, kwargs):
    if I.ctx.choose("not JSON"):
        raise pydv.PyRaise(pydv.ExcVal(json.JSONDecodeError, ()))
    if I.ctx.choose("nested too deeply"):
        raise pydv.PyRaise(pydv.ExcVal(RecursionError, ()))
    return I.sym(Document(I))


class Document(Sym):
    """A decoded JSON value."""

    frozen = True

    def __init__(self, I):
        super().__init__()
        self.is_dict = None

    def py_isinstance(self, I, c):
        if c is dict:
            if self.is_dict is None:
                self.is_dict = I.ctx.choose("the document is a dictionary")
            return self.is_dict
        bad("type of a document")

    def py_getattr(self, I, name):
        return Method(self, name)


def repr_document(I, args, kwargs):
    if isinstance(args[0], Document) and I.ctx.choose("repr nests too deeply"):
        raise pydv.PyRaise(pydv.ExcVal(RecursionError, ()))
    return S(I.ctx.fresh("repr", STR))


def register(v):
    osworld.register(v)
    v.model(time.monotonic, monotonic, "time.monotonic does not decrease")
    v.model(time.sleep, sleep, "time.sleep")
    v.model(time.time, lambda I, args, kwargs: I.ctx.fresh("time", REAL), "time.time")
    v.model(platform.node, lambda I, args, kwargs: S(I.ctx.fresh("node", STR)), "platform.node")
    v.model(uuid.uuid4, lambda I, args, kwargs: I.sym(Uuid()), "uuid.uuid4 is fresh")
    v.model(fcntl.flock, flock, "flock: exclusive among processes, released by unlock or close")
    v.model(math.isfinite, isfinite, "math.isfinite")
    v.model(json.loads, loads, "json.loads")
    v.model(repr, repr_document, "repr")
    v.models[id(os.environ)] = (os.environ, Environment())


def prove_lock(v):
    register(v)
    for c in (EnsureParent(), WriteAll(), OpenAnchor(), Diagnostic(), WriteOwner(), ConfiguredTimeout(), Lock()):
        v.contract(c)
        if not isinstance(c, EnsureParent):
            v.verify(c)


def prove(v, names=None):
    v.loop(WriteAll.target, 0, WriteLoop())
    v.loop(Lock.target, 0, LockLoop())
    prove_lock(v)
    import tn.processor
    v.models[id(tn.processor.logger)] = (tn.processor.logger, Logger())
    for c in (SourceFingerprint(), NewBundle(), DefaultDir()):
        v.contract(c)
    v.verify(BuildFst())
