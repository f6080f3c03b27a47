"""Contracts of the constructors and of CacheBundle's identity (C10)."""
import importlib
import inspect
import re
import sre_parse

import z3

from lib import common, pipes, pydv
from lib.pydv import BOOL, INT, STR, Contract, Method, Obj, Opaque, PDict, PList, S, Sym, seq
from contracts import fs
from contracts.nbest import Other
from contracts.fs import P, bad, component, hashed, yes

PIPES = pipes.SPECS
BUILD = "tn.processor:Processor.build_fst"
INIT = "tn.processor:Processor.__init__"
NOT_OPTIONS = ("cache_dir", "overwrite_cache")


def pipeline_class(key):
    module, cls = PIPES[key]
    return getattr(importlib.import_module(module), cls)


def parameters(key):
    return {n: p.default for n, p in inspect.signature(pipeline_class(key).__init__).parameters.items() if n != "self"}


# ------------------------------------------------------- Processor.__init__
class AnyGraph(Sym):
    """A grammar value: nothing is assumed about it."""

    frozen = True

    def py_binop(self, I, op, a, b):
        return I.sym(AnyGraph())

    def py_getattr(self, I, name):
        return I.sym(AnyGraph())

    def py_call(self, I, args, kwargs):
        return I.sym(AnyGraph())


def graph_values(I, value):
    """Grammar values of pynini, and its functions, are opaque."""
    import pynini
    if isinstance(value, pynini.Fst):
        return I.sym(AnyGraph())
    module = getattr(value, "__module__", None) or ""
    if callable(value) and (module.split(".")[0] in ("pynini", "_pynini") or type(value).__name__ in ("cython_function_or_method", "builtin_function_or_method")
                            and module.split(".")[0] in ("_pynini", "_pywrapfst", "pywrapfst")):
        return I.sym(AnyGraph())
    return None


class ProcessorInit(Contract):
    target = INIT
    FIELDS = ("name", "ordertype", "token_orders")

    def setup(self, I):
        import tn.processor
        obj = I.new_obj(tn.processor.Processor)
        return [obj, S(I.ctx.fresh("name", STR)), S(I.ctx.fresh("ordertype", STR)), Opaque("orders")], {}

    def values(self, args, kwargs):
        v = {"ordertype": "tn", "token_orders": None}
        v.update(zip(("self",) + self.FIELDS, args))
        v.update(kwargs)
        return v

    def frame(self, I, args, kwargs):
        return [(self.values(args, kwargs)["self"], "*")]

    def post(self, I, old, args, kwargs, result):
        v = self.values(args, kwargs)
        attrs = v["self"].attrs
        for f in self.FIELDS:
            yield "%s is recorded" % f, yes(attrs.get(f) is v[f])

    def apply(self, I, args, kwargs):
        v = self.values(args, kwargs)
        if set(v) != set(("self",) + self.FIELDS):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ("arguments",)))
        for f in self.FIELDS:
            I.setattr(v["self"], f, v[f])
        I.globals_ghost.setdefault("init", []).append({f: v[f] for f in self.FIELDS})
        return None


# ------------------------------------------------------------- the pipelines
class BuildCall:
    """Call of build_fst from a constructor: recorded."""

    target = BUILD

    def apply(self, I, args, kwargs):
        v = {"cache_config": None}
        v.update(zip(("self", "prefix", "cache_dir", "overwrite_cache", "cache_config"), args))
        v.update(kwargs)
        config = v["cache_config"]
        I.globals_ghost.setdefault("built", []).append((v, dict(config.items) if isinstance(config, PDict) else config, dict(v["self"].attrs)))
        return None


class Constructor(Contract):

    def __init__(self, key, seen):
        self.key = key
        self.cls = pipeline_class(key)
        self.target = "%s:%s.__init__" % PIPES[key]
        self.seen = seen

    def setup(self, I):
        obj = I.new_obj(self.cls)
        self.obj = obj
        self.options, self.others = {}, {}
        for n, default in parameters(self.key).items():
            if n in NOT_OPTIONS:
                self.others[n] = Opaque(n)
            else:
                self.options[n] = I.ctx.fresh("option_" + n, BOOL)
        return [obj], dict(self.others, **self.options)

    def frame(self, I, args, kwargs):
        return [(self.obj, "*")]

    def post(self, I, old, args, kwargs, result):
        built = I.globals_ghost.get("built", [])
        yield "the grammar is built once", yes(len(built) == 1)
        if len(built) != 1:
            return
        v, config, attrs = built[0]
        defaults = parameters(self.key)
        yield "every option is a boolean with a default", yes(all(isinstance(d, bool) for n, d in defaults.items() if n not in NOT_OPTIONS))
        yield "the cache arguments are passed on", yes(v["self"] is self.obj and v.get("cache_dir") is self.others["cache_dir"]
                                                        and v.get("overwrite_cache") is self.others["overwrite_cache"])
        prefix = v["prefix"]
        yield "the pipeline's prefix is a constant of its own", yes(isinstance(prefix, str) and self.seen.setdefault(prefix, self.key) == self.key)
        if config is None:
            config = {}
        ok = isinstance(config, dict) and all(isinstance(k, str) for k in config)
        yield "the recorded options are a dictionary", yes(ok)
        if not ok:
            return
        opts = list(self.options.values())
        terms = [t for t in config.values() if pydv.is_z3(t)]
        yield "the recorded values are options or constants", yes(all(
            (pydv.is_z3(t) and names(t) <= names(*opts)) or (not pydv.is_z3(t) and isinstance(t, (bool, int, str, type(None)))) for t in config.values()))
        yield "the identity does not hide an option in a branch", yes(not any(names(f) & names(*opts) for f in I.ctx.pc))
        other = [z3.Bool("other_%s" % n) for n in self.options]
        pairs = list(zip(opts, other))
        for n, o, p in zip(self.options, opts, other):
            yield "%s is part of the identity" % n, z3.Implies(z3.And([t == z3.substitute(t, *pairs) for t in terms]) if terms else z3.BoolVal(True), o == p)
        init = I.globals_ghost.get("init", [])
        yield "the order type is a constant of the pipeline", yes(len(init) == 1 and isinstance(init[0]["ordertype"], str) and attrs.get("ordertype") == init[0]["ordertype"])
        yield "the grammar builders see only the options and constants", yes(all(
            (pydv.is_z3(a) and names(a) <= names(*opts)) or not isinstance(a, Opaque) and not pydv.is_z3(a)
            or a in self.options.values() or n in ProcessorInit.FIELDS for n, a in attrs.items()))


def names(*terms):
    out = set()
    todo = list(terms)
    while todo:
        t = todo.pop()
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(t.decl().name())
        elif z3.is_quantifier(t):
            todo.append(t.body())
        else:
            todo.extend(t.children())
    return out


# ------------------------------------------------------------- CacheBundle
def character_class(pattern):
    """The characters of a pattern of the form ^[class]+$, or None."""
    parsed = list(sre_parse.parse(pattern.pattern, pattern.flags))
    parsed = [p for p in parsed if p[0] is not sre_parse.AT]
    if len(parsed) != 1 or parsed[0][0] is not sre_parse.MAX_REPEAT or parsed[0][1][0] < 1:
        return None
    body = list(parsed[0][1][2])
    if len(body) != 1 or body[0][0] is not sre_parse.IN:
        return None
    one = re.compile("(?:%s)" % pattern.pattern, pattern.flags)
    return [c for c in map(chr, range(0x110000)) if one.fullmatch(c)]


def pattern_values(I, value):
    if isinstance(value, re.Pattern):
        return I.sym(Pattern(value))
    return graph_values(I, value)


class Pattern(Sym):
    frozen = True

    def __init__(self, real):
        super().__init__()
        self.real = real

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name != "fullmatch" or len(args) != 1 or not pydv.is_str(args[0]):
            bad("pattern.%s" % name)
        chars = character_class(self.real)
        if chars is None:
            bad("pattern %r" % self.real.pattern)
        text = seq(args[0])
        if not I.ctx.choose("the pattern matches"):
            return None
        # only what is needed of the class: it excludes separators
        I.ctx.assume(z3.Length(text) > 0)
        for c in "/\\\0:":
            if c not in chars:
                I.ctx.assume(z3.Not(z3.Contains(text, seq(c))))
        return I.sym(Match())


class Match(Sym):
    frozen = True

    def py_truth(self, I):
        return True

    def py_getattr(self, I, name):
        bad("match.%s" % name)


class UnderRoot(Contract):
    """A path below the root is accepted, anything else refused."""

    target = "tn.cache:CacheBundle._assert_under_root"
    min_returns = 1

    def setup(self, I):
        import tn.cache
        root = I.sym(P("root"))
        obj = I.new_obj(tn.cache.CacheBundle, {"cache_root": root})
        return [obj, I.sym(AnyPath())], {}

    def post(self, I, old, args, kwargs, result):
        yield "only paths below the root pass", UNDER(args[1].term)

    def refused(self, I, old, args, kwargs, exc):
        yield "paths below the root are not refused", z3.Not(UNDER(args[1].term))

    @property
    def raises(self):
        import tn.cache
        return {tn.cache.CachePathError: UnderRoot.refused}

    def apply(self, I, args, kwargs):
        path = args[1]
        if not isinstance(path, P):
            bad("a path that is not below the root")
        I.ctx.prove("the path is below the cache root", z3.And([component(c) for c in path.comps] + [yes(path.base == "root")]))
        return None


UNDER = z3.Function("UNDER", INT, BOOL)


class AnyPath(Sym):
    """A path about which only containment is known."""

    frozen = True

    def __init__(self):
        super().__init__()
        self.term = z3.Int("any_path")


class CommonPath(Sym):
    frozen = True

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b = a, b

    def py_eq(self, I, other):
        for x, y in ((self.a, self.b), (self.b, self.a)):
            if isinstance(x, P) and not x.comps and isinstance(other, P) and not other.comps and isinstance(y, AnyPath):
                return UNDER(y.term)
        bad("comparison of a common path")


def commonpath_model(I, args, kwargs):
    pair = args[0] if isinstance(args[0], tuple) else args[0].items
    if I.ctx.choose("no common path"):
        # different drives: neither is below the other
        for x in pair:
            if isinstance(x, AnyPath):
                I.ctx.assume(z3.Not(UNDER(x.term)))
        raise pydv.PyRaise(pydv.ExcVal(ValueError, ()))
    return I.sym(CommonPath(*pair))


class BuilderIdentity(Contract):
    target = "tn.cache:_builder_identity"

    def setup(self, I):
        return [], {}

    def post(self, I, old, args, kwargs, result):
        import tn.cache
        yield "the builder is identified", yes(isinstance(result, PDict) and {"abi", "cache_format", "pynini"} <= set(result.items)
                                               and result.items["abi"] == tn.cache.BUILDER_ABI_VERSION and result.items["cache_format"] == tn.cache.CACHE_FORMAT_VERSION)

    def apply(self, I, args, kwargs):
        return I.globals_ghost.setdefault("builder", I.new_dict({"builder": Opaque("builder")}))


class BundleInit(Contract):
    target = "tn.cache:CacheBundle.__init__"

    def setup(self, I):
        import tn.cache
        obj = I.new_obj(tn.cache.CacheBundle)
        self.given = {"prefix": S(I.ctx.fresh("prefix", STR)) if I.ctx.choose("a text prefix") else I.sym(Other()), "ordertype": S(I.ctx.fresh("ordertype", STR)),
                      "cache_config": I.new_dict({"option": I.ctx.fresh("option", BOOL)}), "source_fingerprint": S(I.ctx.fresh("fingerprint", STR))}
        return [obj, I.sym(fs.RootArgument())], dict(self.given)

    def frame(self, I, args, kwargs):
        return [(args[0], "*")]

    def value_of(self, I, digest, wanted):
        """The digest is the hash of one canonical dictionary of ``wanted``."""
        parts = hashed(I, digest)
        if parts is None or len(parts) != 1 or not isinstance(parts[0], fs.Json) or not parts[0].encoded:
            return False
        value = parts[0].value
        if not isinstance(value, tuple) or value[0] != "dict":
            return False
        values = [x[2] if isinstance(x, tuple) and x[0] == "dict" else x for x in value[1].values()]
        return all(sum(same(x, w) for x in values) == 1 for w in wanted)

    def post(self, I, old, args, kwargs, result):
        a = args[0].attrs
        g = self.given
        for n in g:
            yield "%s is recorded" % n, yes(a.get(n) is g[n])
        yield "the builder is recorded", yes(a.get("builder") is I.globals_ghost.get("builder"))
        yield "the root is the resolved given root", yes(isinstance(a.get("cache_root"), P) and a["cache_root"].base == "root" and not a["cache_root"].comps)
        if isinstance(g["prefix"], S):
            yield "an accepted prefix is one path component", component(g["prefix"])
        else:
            yield "a prefix that is no text is refused", z3.BoolVal(False)
        yield "the configuration digest covers options, order type and prefix", yes(self.value_of(I, a.get("config_digest"), [g["cache_config"], g["ordertype"], g["prefix"]]))
        yield "the bundle digest covers configuration, sources and builder", yes(self.value_of(I, a.get("bundle_digest"), [a.get("config_digest"), g["source_fingerprint"], a.get("builder")]))
        path = a.get("path")
        ok = isinstance(path, P) and path.base == "root" and path.comps
        yield "the stored location is named by the bundle digest, below the root", z3.And(
            [seq(path.comps[-1]) == seq(a["bundle_digest"])] + [component(c) for c in path.comps]) if ok and isinstance(a.get("bundle_digest"), S) else z3.BoolVal(False)
        parent, lock = a.get("parent"), a.get("lock_path")
        ok = ok and isinstance(parent, P) and isinstance(lock, P) and lock.comps
        yield "the lock and the bundle lie in the same directory", z3.And(parent.same(P("root", path.comps[:-1])), parent.same(P("root", lock.comps[:-1]))) if ok else z3.BoolVal(False)
        yield "the lock has a name of its own for the key", z3.And(z3.Contains(seq(lock.comps[-1]), seq(a["bundle_digest"])), seq(lock.comps[-1]) != seq(a["bundle_digest"])) if ok else z3.BoolVal(False)

    def refused(self, I, old, args, kwargs, exc):
        p = self.given["prefix"]
        return ()

    raises = {ValueError: refused}


def same(x, y):
    if isinstance(x, S) and isinstance(y, S):
        return x.term.eq(y.term)
    return x is y


class BundleIdentity:
    """Call of CacheBundle(...) from build_fst: recorded."""

    target = "tn.cache:CacheBundle"

    def apply(self, I, args, kwargs):
        v = dict(zip(("cache_root", "prefix", "ordertype", "cache_config", "source_fingerprint"), args))
        v.update(kwargs)
        w = I.globals_ghost["build"]
        for n, want in w.items():
            got = v.get(n)
            I.ctx.prove("build_fst: the bundle's %s is the constructor's" % n, yes(got is want or isinstance(got, PDict) and isinstance(want, PDict) and got.items == want.items))
        # the rest of build_fst is C13's
        raise pydv.PathEnd()


class Fingerprint:
    target = "tn.cache:production_source_fingerprint"

    def apply(self, I, args, kwargs):
        return I.globals_ghost["build"]["source_fingerprint"]


class DefaultDir:
    target = "tn.cache:default_cache_dir"

    def apply(self, I, args, kwargs):
        return Opaque("default root")


class BuildIdentity(Contract):
    """build_fst up to the bundle it constructs."""

    target = BUILD
    min_returns = 0

    def setup(self, I):
        import tn.processor
        order = S(I.ctx.fresh("ordertype", STR))
        config = I.new_dict({"option": I.ctx.fresh("option", BOOL)})
        prefix = S(I.ctx.fresh("prefix", STR))
        root = Opaque("root")
        if I.ctx.choose("no options"):
            config = I.new_dict({})
        I.globals_ghost["build"] = {"cache_root": root, "prefix": prefix, "ordertype": order, "cache_config": config, "source_fingerprint": S(I.ctx.fresh("fingerprint", STR))}
        obj = I.new_obj(tn.processor.Processor, {"ordertype": order, "name": "name"})
        return [obj, prefix, root, I.ctx.fresh("overwrite", BOOL), config if config.items else None], {}


def lemmas(v):
    """Equal locations mean equal identities (hash and JSON are injective)."""
    V = z3.DeclareSort("Value")
    D = z3.DeclareSort("Digest")
    J3 = z3.Function("J3", V, V, V, V)
    H = z3.Function("H", V, D)
    TEXT = z3.Function("TEXT", D, V)
    c, o, p, b, s, c2, o2, p2, b2, s2, x, y = z3.Consts("c o p b s c2 o2 p2 b2 s2 x y", V)
    d, e = z3.Consts("d e", D)
    axioms = [z3.ForAll([x, y], z3.Implies(H(x) == H(y), x == y)), z3.ForAll([d, e], z3.Implies(TEXT(d) == TEXT(e), d == e)),
              z3.ForAll([c, o, p, c2, o2, p2], z3.Implies(J3(c, o, p) == J3(c2, o2, p2), z3.And(c == c2, o == o2, p == p2)))]

    def digest(c, o, p, b, s):
        return H(J3(b, TEXT(H(J3(c, o, p))), s))

    v.lemma("two bundles with one digest have equal options, order type, prefix, sources and builder", axioms + [digest(c, o, p, b, s) == digest(c2, o2, p2, b2, s2)],
            z3.And(c == c2, o == o2, p == p2, b == b2, s == s2))


def prove_identity(v):
    """CacheBundle's identity and containment at construction."""
    import os
    import platform
    fs.register(v)
    for fn in (platform.python_implementation, platform.python_version, platform.machine, platform.system):
        v.model(fn, lambda I, args, kwargs, fn=fn: fn(), "platform: the running interpreter's value")
    v.wrap = pattern_values
    v.model(os.path.abspath, lambda I, args, kwargs: args[0], "os.path.abspath")
    v.model(os.path.normcase, lambda I, args, kwargs: args[0], "os.path.normcase")
    v.model(os.path.commonpath, commonpath_model, "os.path.commonpath")
    for c in (UnderRoot(), BuilderIdentity(), BundleInit()):
        v.contract(c)
        v.verify(c)
    lemmas(v)


def prove(v, names=None):
    prove_identity(v)
    c = v.contract(ProcessorInit())
    v.verify(c)
    v.contract(BuildCall())
    seen = {}
    for key in sorted(PIPES):
        v.verify(Constructor(key, seen))
    for c in (BundleIdentity(), Fingerprint(), DefaultDir()):
        v.contract(c)
    v.verify(BuildIdentity())
