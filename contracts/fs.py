"""Paths, digests and JSON as the contracts of tn.cache see them.

A path below the cache root is the root and its components; components are
texts (z3 sequences).  ``slashless`` is the fact that makes a text one
component."""
import hashlib
import json
import os
import pathlib

import z3

from lib import pydv
from lib.pydv import INT, STR, Method, PDict, PList, S, Sym, seq

HEX = z3.Function("HEX", INT, STR)
RAWHASH = z3.Function("RAWHASH", INT, INT)


def bad(message):
    raise pydv.Unsupported(message)


def yes(value):
    return z3.BoolVal(bool(value)) if isinstance(value, bool) else value


def pieces(term):
    """The concatenated parts of a sequence term."""
    if z3.is_app(term) and term.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
        return [p for c in term.children() for p in pieces(c)]
    return [term]


def free_of(term, char):
    """Formula: the one-character text does not occur in the text."""
    if isinstance(term, str):
        return z3.BoolVal(char not in term)
    out = []
    for p in pieces(z3.simplify(seq(term))):
        if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            out.append(p.arg(0) != ord(char))
        else:
            out.append(z3.Not(z3.Contains(p, seq(char))))
    return z3.And(*out) if out else z3.BoolVal(True)


def component(term):
    """Formula: the text is one normal path component."""
    t = seq(term)
    return z3.And(free_of(term, "/"), free_of(term, "\0"), t != seq(""), t != seq("."), t != seq(".."))


class P(Sym):
    """A path: a base and the components below it."""

    frozen = True

    def __init__(self, base, comps=()):
        super().__init__()
        self.base, self.comps = base, tuple(comps)

    def __repr__(self):
        return "P(%s, %s)" % (self.base, list(self.comps))

    def same(self, other):
        if not isinstance(other, P) or self.base != other.base or len(self.comps) != len(other.comps):
            return z3.BoolVal(False)
        return z3.And(*[seq(a) == seq(b) for a, b in zip(self.comps, other.comps)]) if self.comps else z3.BoolVal(True)

    def py_eq(self, I, other):
        return self.same(other) if isinstance(other, P) else False

    def py_truth(self, I):
        return True

    def py_isinstance(self, I, c):
        return isinstance(c, type) and issubclass(pathlib.PosixPath, c)

    def py_binop(self, I, op, a, b):
        if a is not self or type(op).__name__ != "Div":
            bad("arithmetic with a path")
        other = b
        if isinstance(other, P):
            return other
        if not pydv.is_str(other):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ("path component",)))
        I.ctx.prove("a joined path component is one component", component(other))
        return I.sym(P(self.base, self.comps + (other,)))

    def py_getattr(self, I, name):
        if name == "parent":
            if not self.comps:
                bad("parent of the root")
            return I.sym(P(self.base, self.comps[:-1]))
        if name == "name":
            if not self.comps:
                bad("name of the root")
            return self.comps[-1]
        if name == "parts":
            return self.comps
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name in ("expanduser", "absolute", "as_posix", "__fspath__") and not args:
            return self
        if name == "joinpath":
            out = self
            for a in args:
                out = out.py_binop(I, DIV, out, a)
            return out
        if name == "relative_to" and isinstance(args[0], P) and args[0].base == self.base and not args[0].comps:
            return I.sym(P(None, self.comps))
        hook = I.globals_ghost.get("fs")
        if hook is not None:
            return hook.path_method(I, self, name, args, kwargs)
        bad("path.%s" % name)


class Div:
    pass


DIV = Div()


class Json(Sym):
    """json.dumps of a value: an injective function of the value."""

    frozen = True

    def __init__(self, value, encoded=False):
        super().__init__()
        self.value, self.encoded = value, encoded

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "encode" and not self.encoded and tuple(args) in ((), ("utf-8",), ("utf8",)) and not kwargs:
            return I.sym(Json(self.value, True))
        bad("json text.%s" % name)

    def py_len(self, I):
        n = I.ctx.fresh("json_length", INT)
        I.ctx.assume(n >= 2)
        return n


def copy_value(v):
    return ("dict", {k: copy_value(x) for k, x in v.items.items()}, v) if isinstance(v, PDict) else v


def dumps_model(I, args, kwargs):
    kwargs = dict(kwargs)
    sep = kwargs.pop("separators", (", ", ": "))
    ok = kwargs.pop("sort_keys", False) is True
    kwargs.pop("ensure_ascii", None)
    kwargs.pop("indent", None)
    I.ctx.prove("the JSON form is canonical: sorted keys, plain separators, nothing skipped", yes(
        ok and not kwargs and isinstance(sep, tuple) and [s.strip() for s in sep] == [",", ":"]))
    return I.sym(Json(copy_value(args[0])))


class Hasher(Sym):
    """hashlib.sha256: ``parts`` are the updates so far."""

    def __init__(self, parts):
        super().__init__(parts=tuple(parts))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "update":
            self.set(I, "parts", self.get("parts") + (args[0],))
            return None
        if name == "hexdigest":
            return digest_of(I, self.get("parts"))
        bad("hash.%s" % name)


def digest_of(I, parts):
    """The text of a digest, remembered with what was hashed."""
    table = I.globals_ghost.setdefault("digests", [])
    for known, term in table:
        if len(known) == len(parts) and all(a is b for a, b in zip(known, parts)):
            return S(term)
    term = HEX(I.ctx.fresh("hashed", INT))
    I.ctx.assume(z3.And(z3.Length(term) == 64, free_of(S(term), "/"), free_of(S(term), "\0"), free_of(S(term), ".")))
    table.append((tuple(parts), term))
    return S(term)


def hashed(I, digest):
    """What a digest was made of, or None."""
    if not isinstance(digest, S):
        return None
    for parts, term in I.globals_ghost.get("digests", ()):
        if term.eq(digest.term):
            return parts
    return None


def sha256_model(I, args, kwargs):
    return I.sym(Hasher(args))


def path_model(I, args, kwargs):
    if len(args) == 1 and isinstance(args[0], P):
        return args[0]
    if len(args) == 1 and isinstance(args[0], RootArgument):
        return args[0]
    if len(args) == 1 and pydv.is_str(args[0]):
        return I.sym(Component(args[0]))
    bad("Path%r" % (tuple(args),))


class Component(Sym):
    """Path(text) of an unchecked text."""

    frozen = True

    def __init__(self, text):
        super().__init__()
        self.text = text

    def py_getattr(self, I, name):
        if name == "name":
            return S(z3.Function("path_name", STR, STR)(seq(self.text)))
        bad("path.%s" % name)


class RootArgument(Sym):
    """The cache root as given: any path-like value."""

    frozen = True

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "expanduser":
            return self
        if name == "resolve" and not args and kwargs in ({}, {"strict": False}):
            return I.sym(P("root"))
        bad("root.%s" % name)


def register(v):
    v.model(json.dumps, dumps_model, "json.dumps is injective")
    v.model(hashlib.sha256, sha256_model, "SHA-256 has no collisions")
    v.model(pathlib.Path, path_model, "pathlib.Path")
    v.model(os.fspath, lambda I, args, kwargs: args[0], "os.fspath")
