"""Contracts of loading a stored bundle (C08).

A stored directory is arbitrary.  ``FileBytes`` are the bytes read once from
one file; checksum, size and the parsed graph must all be about the same
``FileBytes``."""
import errno
import hashlib
import json
import os
import sys

import z3

from lib import pydv
from lib.pydv import INT, STR, Contract, Loop, Method, Opaque, PDict, PSet, S, Sym, seq, zint
from contracts import fs, osworld
from contracts.fs import P, bad, yes
from contracts.osworld import Bytes, Fd, Policy, Stat, World, fail, fresh_bundle, os_error, world

CACHE = "tn.cache:"
BUNDLE = CACHE + "CacheBundle."
GRAPHS = ("tagger.fst", "verbalizer.fst")
# what a manifest must repeat, and the bundle's value of it
IDENTITY = {"builder": "builder", "bundle_digest": "bundle_digest", "config": "cache_config", "config_digest": "config_digest", "ordertype": "ordertype",
            "prefix": "prefix", "source_fingerprint": "source_fingerprint"}


def cache():
    import tn.cache
    return tn.cache


class ReadPolicy(Policy):
    tag = "C08"


def start(I, policy=None, known=False):
    w = I.globals_ghost["fs"] = I.sym(World(I, policy or ReadPolicy()))
    b = I.globals_ghost["bundle"] = fresh_bundle(I, known)
    return w, b


def raise_one(I, label, *classes):
    for c in classes:
        if I.ctx.choose("%s raises %s" % (label, c.__name__)):
            e = os_error(I, c) if issubclass(c, OSError) else pydv.ExcVal(c, ())
            if c is OSError and label == "reading":
                # only opening meets links
                I.ctx.assume(e.attrs["errno"] != errno.ELOOP)
            raise pydv.PyRaise(e)


# ------------------------------------------------------------- one open file
class Buffer(Sym):
    """bytearray(n), filled from the start."""

    def __init__(self, I, n):
        super().__init__(filled=z3.IntVal(0))
        self.n = n

    def py_len(self, I):
        return self.n

    def py_getattr(self, I, name):
        bad("bytearray.%s" % name)


class View(Sym):
    frozen = True

    def __init__(self, buffer, at):
        super().__init__()
        self.buffer, self.at = buffer, at

    def py_len(self, I):
        return self.buffer.n - self.at

    def py_getitem(self, I, index):
        if not isinstance(index, slice) or index.stop is not None or index.step is not None:
            bad("part of a memoryview")
        lo = zint(0 if index.start is None else index.start)
        I.ctx.prove("view inside the buffer", z3.And(lo >= 0, self.at + lo <= self.buffer.n))
        return I.sym(View(self.buffer, self.at + lo))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "release":
            return None
        bad("memoryview.%s" % name)

    def py_enter(self, I):
        return self

    def py_exit(self, I, exc):
        return False


class FileObject(Sym):
    """os.fdopen(fd, 'rb', closefd=False)."""

    def __init__(self, fd, closes):
        super().__init__()
        self.fd, self.closes = fd, closes

    def py_enter(self, I):
        return self

    def py_exit(self, I, exc):
        if self.closes:
            world(I).closed(I, self.fd)
        return False

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        osworld.use(I, self.fd)
        if name == "readinto" and isinstance(args[0], View):
            b = args[0].buffer
            I.ctx.prove("the file is read in order without gaps", args[0].at == b.get("filled"))
            fail(I, "readinto", OSError)
            n = I.ctx.fresh("read", INT)
            I.ctx.assume(z3.And(n >= 0, n <= b.n - args[0].at))
            b.set(I, "filled", b.get("filled") + n)
            return n
        if name == "read":
            fail(I, "read", OSError)
            return I.sym(Bytes(I, zint(args[0]) if args else None))
        if name == "fileno":
            return self.fd
        bad("file.%s" % name)


def fdopen(I, args, kwargs):
    fd = osworld.use(I, args[0])
    mode = args[1] if len(args) > 1 else kwargs.get("mode", "r")
    if mode != "rb":
        bad("fdopen mode %r" % (mode,))
    fail(I, "fdopen", OSError)
    return I.sym(FileObject(fd, kwargs.get("closefd", True)))


def new_bytearray(I, args, kwargs):
    if not args:
        bad("bytearray()")
    return I.sym(Buffer(I, zint(args[0])))


def new_view(I, args, kwargs):
    if not isinstance(args[0], Buffer):
        bad("memoryview")
    return I.sym(View(args[0], z3.IntVal(0)))


class ReadOpen(Contract):
    """_read_open_regular: all bytes of one regular file, or an error."""

    target = CACHE + "_read_open_regular"
    NAMES = ("descriptor", "display_path", "expected_size", "max_size", "expected_stat")

    def values(self, args, kwargs):
        v = dict.fromkeys(self.NAMES[2:])
        v.update(zip(self.NAMES, args))
        v.update(kwargs)
        return v

    def setup(self, I):
        w, b = start(I)
        fd = w.opened(I, Fd(I, path=b.attrs["path"]))
        kw = {}
        for n in ("expected_size", "max_size"):
            if I.ctx.choose(n + " given"):
                kw[n] = I.ctx.fresh(n, INT)
        if I.ctx.choose("expected_stat given"):
            kw["expected_stat"] = I.sym(Stat(I))
        return [fd, "path"], kw

    def post(self, I, old, args, kwargs, result):
        v = self.values(args, kwargs)
        ok = isinstance(result, tuple) and len(result) == 2 and isinstance(result[0], Buffer) and isinstance(result[1], Stat)
        yield "the contents and the state of the file are returned", yes(ok)
        if not ok:
            return
        b, st = result
        yield "every byte was read from the file", z3.And(b.get("filled") == b.n, b.n == st.size)
        yield "the state is the open file's", yes(st is v["descriptor"].get("stat"))
        yield "it is a regular file", st.is_reg()
        yield "of the recorded size", b.n == v["expected_size"] if v["expected_size"] is not None else z3.BoolVal(True)
        yield "within the limit", b.n <= v["max_size"] if v["max_size"] is not None else z3.BoolVal(True)
        e = v["expected_stat"]
        yield "the file that was looked at before", z3.And(e.dev == st.dev, e.ino == st.ino) if e is not None else z3.BoolVal(True)
        yield "the descriptor stays open", yes(v["descriptor"].get("open"))

    def failed(self, I, old, args, kwargs, exc):
        yield "the descriptor stays open", yes(args[0].get("open"))

    def special(self, I, old, args, kwargs, exc):
        v = self.values(args, kwargs)
        st, e = v["descriptor"].get("stat"), v["expected_stat"]
        yield "only a file that is not regular or was exchanged is refused", z3.Or(z3.Not(st.is_reg()), z3.Or(e.dev != st.dev, e.ino != st.ino) if e is not None else z3.BoolVal(False))
        yield "the descriptor stays open", yes(args[0].get("open"))

    @property
    def raises(self):
        return {OSError: ReadOpen.failed, cache().CachePathError: ReadOpen.special, cache().CacheIntegrityError: ReadOpen.failed}

    def apply(self, I, args, kwargs):
        v = self.values(args, kwargs)
        fd = osworld.use(I, v["descriptor"])
        if I.ctx.choose("the file is special"):
            I.ctx.assume(z3.Or(z3.Not(fd.get("stat").is_reg()), yes(v["expected_stat"] is not None)))
            raise pydv.PyRaise(pydv.ExcVal(cache().CachePathError, ()))
        raise_one(I, "reading", OSError, cache().CacheIntegrityError)
        return file_bytes(I, fd, v["expected_size"], v["max_size"]), fd.get("stat")


def file_bytes(I, fd, expected, most):
    b = I.sym(FileBytes(I, fd))
    I.ctx.assume(z3.And(fd.get("stat").is_reg(), b.length == fd.get("stat").size))
    if isinstance(expected, Value):
        if expected.number is None:
            bad("a size that was not checked to be a number")
        expected = expected.number
    if expected is not None:
        I.ctx.assume(b.length == expected)
    if most is not None:
        I.ctx.assume(b.length <= most)
    return b


class FileBytes(Bytes):
    """The bytes read from the file of a descriptor."""

    def __init__(self, I, fd):
        super().__init__(I)
        self.fd = fd
        self.expected = None


class ReadLoop(Loop):
    havoc = {"offset": "int"}

    def enter(self, L):
        found = [v for v in L.frame.locals.values() if isinstance(v, Buffer)]
        if len(found) != 1:
            bad("the buffer")
        return {"b": found[0]}

    def modifies(self, L):
        yield L.b, "filled", "int"

    def inv(self, L):
        at = zint(L["offset"])
        yield "the first bytes are filled", z3.And(at == L.b.get("filled"), at >= 0, at <= L.b.n)

    def variant(self, L):
        return L.b.n - L.b.get("filled")


class ReadPath(Contract):
    """_read_regular_file: by path, refusing links."""

    target = CACHE + "_read_regular_file"

    def setup(self, I):
        w, b = start(I)
        kw = {n: I.ctx.fresh(n, INT) for n in ("expected_size", "max_size") if I.ctx.choose(n + " given")}
        return [I.sym(P("root", ("a", "b", "c", "tagger.fst")))], kw

    def snapshot(self, I, args, kwargs):
        return world(I).get("fds")

    def frame(self, I, args, kwargs):
        return [(world(I), "fds")]

    def fd(self, result):
        ok = isinstance(result, tuple) and isinstance(result[0], FileBytes)
        return result[0].fd if ok else None

    def post(self, I, old, args, kwargs, result):
        fd = self.fd(result)
        yield "the file's bytes are returned", yes(fd is not None)
        if fd is None:
            return
        b = result[0]
        yield "of the file that was asked for", self.asked(fd, args)
        yield "opened without following a link", yes(bool(fd.flags & os.O_NOFOLLOW))
        yield "of the recorded size", b.length == kwargs["expected_size"] if "expected_size" in kwargs else z3.BoolVal(True)
        yield "within the limit", b.length <= kwargs["max_size"] if "max_size" in kwargs else z3.BoolVal(True)
        yield "no descriptor is left open", world(I).get("fds") == old

    def asked(self, fd, args):
        return fd.path.same(args[0]) if isinstance(fd.path, P) else z3.BoolVal(False)

    def failed(self, I, old, args, kwargs, exc):
        yield "no descriptor is left open", world(I).get("fds") == old

    @property
    def raises(self):
        return {OSError: type(self).failed, cache().CachePathError: type(self).failed, cache().CacheIntegrityError: type(self).failed}


class ReadAt(ReadPath):
    """_read_regular_at: by name in an open directory."""

    target = CACHE + "_read_regular_at"

    def setup(self, I):
        w, b = start(I)
        d = w.opened(I, Fd(I, path=b.attrs["path"], flags=os.O_DIRECTORY))
        kw = {n: I.ctx.fresh(n, INT) for n in ("expected_size", "max_size") if I.ctx.choose(n + " given")}
        return [d, "tagger.fst"], kw

    def asked(self, fd, args):
        return yes(fd.at is args[0] and fd.name == args[1])

    def post(self, I, old, args, kwargs, result):
        for o in ReadPath.post(self, I, old, args, kwargs, result):
            yield o
        fd = self.fd(result)
        yield "opening a fifo cannot block", yes(fd is not None and bool(fd.flags & os.O_NONBLOCK))
        yield "the directory stays open", yes(args[0].get("open"))

    def os_failed(self, I, old, args, kwargs, exc):
        yield "a link is refused with the path error", exc.attrs["errno"] != errno.ELOOP if isinstance(getattr(exc, "attrs", None), dict) and "errno" in exc.attrs else z3.BoolVal(
            issubclass(exc.cls, FileNotFoundError))
        for o in self.failed(I, old, args, kwargs, exc):
            yield o

    @property
    def raises(self):
        return {OSError: ReadAt.os_failed, cache().CachePathError: ReadAt.failed, cache().CacheIntegrityError: ReadAt.failed}

    def apply(self, I, args, kwargs):
        at, name = args[0], args[1]
        osworld.use(I, at)
        if not isinstance(name, str):
            bad("name of a cache file")
        raise_one(I, "_read_regular_at", FileNotFoundError, OSError, cache().CachePathError, cache().CacheIntegrityError)
        fd = Fd(I, name=name, at=at, flags=os.O_NOFOLLOW)
        b = file_bytes(I, fd, kwargs.get("expected_size"), kwargs.get("max_size"))
        b.expected = kwargs.get("expected_size")
        return b, fd.get("stat")


# --------------------------------------------------------------- directories
def chain_of(fd):
    """The components of a directory opened step by step, or None."""
    names = []
    while isinstance(fd, Fd) and fd.at is not None:
        names.append(fd.name)
        fd = fd.at
    if not isinstance(fd, Fd) or not isinstance(fd.path, P):
        return None
    return fd.path, tuple(reversed(names))


def every_step(fd):
    while fd is not None:
        yield fd
        fd = fd.at


class OpenChain(Contract):
    target = BUNDLE + "_open_directory_chain"

    def setup(self, I):
        w, b = start(I)
        return [b, b.attrs["path"]], {}

    def snapshot(self, I, args, kwargs):
        return world(I).get("fds")

    def frame(self, I, args, kwargs):
        return [(world(I), "fds")]

    def post(self, I, old, args, kwargs, result):
        c = chain_of(result)
        ok = c is not None and c[0].base == args[1].base and not c[0].comps and len(c[1]) == len(args[1].comps)
        yield "a descriptor of the directory is returned", z3.And(*[seq(a) == seq(b) for a, b in zip(c[1], args[1].comps)]) if ok else z3.BoolVal(False)
        yield "every step is a directory and no link", yes(ok and all(f.flags & os.O_NOFOLLOW and f.flags & os.O_DIRECTORY for f in every_step(result)))
        yield "it is open, and nothing else", z3.And(yes(isinstance(result, Fd) and result.get("open")), world(I).get("fds") == old + 1)

    def failed(self, I, old, args, kwargs, exc):
        yield "no descriptor is left open", world(I).get("fds") == old

    @property
    def raises(self):
        return {OSError: OpenChain.failed, cache().CachePathError: OpenChain.failed}

    def apply(self, I, args, kwargs):
        raise_one(I, "_open_directory_chain", FileNotFoundError, OSError, cache().CachePathError)
        w = world(I)
        fd = Fd(I, path=args[1], flags=os.O_NOFOLLOW | os.O_DIRECTORY)
        I.ctx.assume(fd.get("stat").is_dir())
        return w.opened(I, fd)


class UnderRoot(Contract):
    """Verified for C10 (options.UnderRoot): the paths here are below the root."""

    target = BUNDLE + "_assert_under_root"

    def apply(self, I, args, kwargs):
        p = args[1]
        I.ctx.prove("the path is the bundle's root or below it", yes(isinstance(p, P) and p.base == args[0].attrs["cache_root"].base))
        return None


# ----------------------------------------------------------------- load path
class Names(Sym):
    """os.listdir of an arbitrary directory."""

    frozen = True

    def py_set(self, I):
        return I.sym(NameSet())

    def py_getattr(self, I, name):
        bad("names.%s" % name)


class NameSet(Sym):
    frozen = True

    def py_eq(self, I, other):
        if not isinstance(other, PSet) or not all(isinstance(x, str) for x in other.items):
            bad("comparison of the directory's names")
        same = I.ctx.choose("the directory's names are as compared")
        if same:
            I.globals_ghost["entries"] = set(other.items)
        return same

    def py_getattr(self, I, name):
        bad("names.%s" % name)


class Value(Sym):
    """A value found in the manifest at ``where``; kinds are decided lazily."""

    def __init__(self, where):
        super().__init__(kind=None)
        self.where = where
        self.number = None

    def is_kind(self, I, kind):
        if self.get("kind") is None:
            for k in ("dict", "int", "bool", "other"):
                if k == "other" or I.ctx.choose("%s is a %s" % (self.where or "the manifest", k)):
                    self.attrs["kind"] = k
                    break
            if self.attrs["kind"] in ("int", "bool"):
                self.number = I.ctx.fresh("number", INT)
                if self.attrs["kind"] == "bool":
                    I.ctx.assume(z3.Or(self.number == 0, self.number == 1))
        return self.get("kind") == kind

    def py_isinstance(self, I, c):
        if c is dict:
            return self.is_kind(I, "dict")
        if c is bool:
            return self.is_kind(I, "bool")
        if c is int:
            return self.is_kind(I, "int") or self.is_kind(I, "bool")
        bad("isinstance of a manifest value")

    def py_getattr(self, I, name):
        if not self.is_kind(I, "dict"):
            if name in ("get", "items", "keys", "values"):
                raise pydv.PyRaise(pydv.ExcVal(AttributeError, (name,)))
            bad("manifest value.%s" % name)
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "get" and len(args) == 1 and isinstance(args[0], str):
            table = I.globals_ghost.setdefault("manifest values", {})
            key = self.where + (args[0],)
            if key not in table:
                # a missing entry is None: as bad as any other value
                table[key] = I.sym(Value(key))
            return table[key]
        bad("manifest.%s" % name)

    def py_getitem(self, I, key):
        if not isinstance(key, str) or not self.is_kind(I, "dict"):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ()))
        if I.ctx.choose("no such key"):
            raise pydv.PyRaise(pydv.ExcVal(KeyError, ()))
        return self.py_method(I, "get", [key], {})

    def py_set(self, I):
        if not self.is_kind(I, "dict"):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ()))
        return I.sym(KeySet(self.where))

    def py_eq(self, I, other):
        if isinstance(other, Digest):
            same = I.ctx.choose("the recorded checksum is equal")
            if same:
                I.globals_ghost.setdefault("checksums", []).append((self.where, other.of))
            return same
        same = I.ctx.choose("the recorded %s is equal" % (self.where,))
        if same:
            I.globals_ghost.setdefault("identity", {}).setdefault(self.where, []).append(other)
        return same

    def py_compare(self, I, op, a, b):
        v, other = (a, b) if a is self else (b, a)
        if not (self.is_kind(I, "int") or self.is_kind(I, "bool")):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ()))
        return I.compare(op, self.number if a is self else a, self.number if b is self else b)

    def py_truth(self, I):
        return I.ctx.choose("%s is truthy" % (self.where,))


class KeySet(Sym):
    frozen = True

    def __init__(self, where):
        super().__init__()
        self.where = where

    def py_eq(self, I, other):
        if not isinstance(other, PSet) or not all(isinstance(x, str) for x in other.items):
            bad("comparison of keys")
        same = I.ctx.choose("the keys are as compared")
        if same:
            I.globals_ghost.setdefault("keys", {})[self.where] = set(other.items)
        return same

    def py_getattr(self, I, name):
        bad("keys.%s" % name)


class Digest(Sym):
    frozen = True

    def __init__(self, of):
        super().__init__()
        self.of = of

    def py_getattr(self, I, name):
        bad("digest.%s" % name)

    def py_eq(self, I, other):
        if isinstance(other, Value):
            return other.py_eq(I, self)
        bad("comparison of a digest")


class FileHash(Sym):
    frozen = True

    def __init__(self, of):
        super().__init__()
        self.of = of

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "hexdigest":
            return I.sym(Digest(self.of))
        bad("hash.%s" % name)


def sha256(I, args, kwargs):
    if len(args) == 1 and isinstance(args[0], FileBytes):
        return I.sym(FileHash(args[0]))
    return fs.sha256_model(I, args, kwargs)


def loads(I, args, kwargs):
    if I.ctx.choose("not JSON"):
        raise pydv.PyRaise(pydv.ExcVal(json.JSONDecodeError, ()))
    if I.ctx.choose("nested too deeply"):
        raise pydv.PyRaise(pydv.ExcVal(RecursionError, ()))
    if I.ctx.choose("an integer with too many digits"):
        raise pydv.PyRaise(pydv.ExcVal(ValueError, ()))
    if not isinstance(args[0], Opaque) or not hasattr(args[0], "of"):
        bad("json.loads of %r" % (args[0],))
    I.globals_ghost["manifest from"] = args[0].of
    return I.sym(Value(()))


def decode(I, b):
    if I.ctx.choose("not UTF-8"):
        raise pydv.PyRaise(pydv.ExcVal(UnicodeDecodeError, ()))
    t = Opaque("text")
    t.of = b
    return t


class Graph(Sym):
    frozen = True

    def __init__(self, of):
        super().__init__()
        self.of = of

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "optimize" and not args:
            return self
        bad("graph.%s" % name)


def read_graph(I, args, kwargs):
    if len(args) != 1 or not isinstance(args[0], FileBytes):
        bad("read_from_string")
    # the native reader sees only bytes whose checksum was recorded
    if I.globals_ghost.get("loading"):
        I.ctx.prove("only bytes with the recorded checksum are parsed", yes(any(of is args[0] for _, of in I.globals_ghost.get("checksums", ()))))
    raise_one(I, "read_from_string", OSError, RuntimeError, ValueError, TypeError)
    return I.sym(Graph(args[0]))


class FstClass(Sym):
    """pynini.Fst"""

    frozen = True

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "read_from_string":
            return read_graph(I, args, kwargs)
        bad("Fst.%s" % name)


def listdir(I, args, kwargs):
    fd = osworld.use(I, args[0])
    fail(I, "listdir", OSError)
    I.globals_ghost["listed"] = fd
    return I.sym(Names())


class LoadPath(Contract):
    target = BUNDLE + "_load_path"
    min_returns = 5

    def setup(self, I):
        w, b = start(I)
        I.globals_ghost["loading"] = True
        self.path = b.attrs["path"]
        if I.ctx.choose("a residual"):
            self.path = I.sym(P("root", b.attrs["parent"].comps + (S(I.ctx.fresh("residual", STR)),)))
        return [b, self.path], {}

    def snapshot(self, I, args, kwargs):
        return world(I).get("fds")

    def frame(self, I, args, kwargs):
        return [(world(I), "fds")]

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        yield "no descriptor is left open", world(I).get("fds") == old
        if result is None:
            return
        ok = isinstance(result, tuple) and len(result) == 2 and all(isinstance(x, Graph) for x in result)
        yield "a pair of parsed graphs", yes(ok)
        if not ok:
            return
        d = g.get("listed")
        yield "read from the asked directory", d.path.same(args[1]) if isinstance(d, Fd) and isinstance(d.path, P) else z3.BoolVal(False)
        yield "the directory held exactly the three files", yes(g.get("entries") == {"tagger.fst", "verbalizer.fst", "manifest.json"})
        yield "tagger and verbalizer are the files of that name, from the listed directory", yes(
            all(x.of.fd.name == n and x.of.fd.at is d for x, n in zip(result, GRAPHS)))
        m = g.get("manifest from")
        yield "the manifest is the listed directory's", yes(isinstance(m, FileBytes) and m.fd.name == "manifest.json" and m.fd.at is d)
        same = g.get("identity", {})
        for key, attr in IDENTITY.items():
            yield "the recorded %s is the bundle's" % key, yes(any(v is args[0].attrs[attr] for v in same.get((key,), ())))
        yield "the recorded cache format is the current one", yes(any(v is cache().CACHE_FORMAT_VERSION or v == cache().CACHE_FORMAT_VERSION for v in same.get(("cache_format",), ()) if isinstance(v, int)))
        yield "the manifest records exactly the two graphs", yes(g.get("keys", {}).get(("files",)) == set(GRAPHS))
        for x, n in zip(result, GRAPHS):
            yield "the checksum of %s is the recorded one" % n, yes(any(w == ("files", n, "sha256") and of is x.of for w, of in g.get("checksums", ())))
            size = g.get("manifest values", {}).get(("files", n, "size"))
            yield "the size of %s is the recorded one" % n, x.of.length == size.number if size is not None and size.number is not None else z3.BoolVal(False)
            yield "the recorded size of %s is a number" % n, yes(size is not None and size.get("kind") == "int")
            yield "%s is within the size limit" % n, x.of.length <= cache()._FST_MAX_BYTES
        yield "the manifest is within the size limit", m.length <= cache()._MANIFEST_MAX_BYTES if isinstance(m, FileBytes) else z3.BoolVal(False)

    def refused(self, I, old, args, kwargs, exc):
        yield "no descriptor is left open", world(I).get("fds") == old

    def os_failed(self, I, old, args, kwargs, exc):
        yield "no descriptor is left open", world(I).get("fds") == old
        yield "once the directory was listed, a file that cannot be read is a miss", yes(I.globals_ghost.get("listed") is None)

    def missing(self, I, old, args, kwargs, exc):
        yield "a missing directory is a miss", z3.BoolVal(False)

    @property
    def raises(self):
        return {OSError: LoadPath.os_failed, cache().CachePathError: LoadPath.refused, FileNotFoundError: LoadPath.missing}


class LoadCall(Contract):
    """_load_path, as ``load`` uses it."""

    target = BUNDLE + "_load_path"

    def apply(self, I, args, kwargs):
        I.ctx.prove("the bundle's own directory is loaded", args[1].same(args[0].attrs["path"]) if isinstance(args[1], P) else z3.BoolVal(False))
        out = I.globals_ghost["loaded"] = (I.sym(Graph(None)), I.sym(Graph(None))) if I.ctx.choose("found") else None
        return out


class Load(Contract):
    target = BUNDLE + "load"
    min_returns = 2

    def setup(self, I):
        w, b = start(I)
        return [b], {}

    def post(self, I, old, args, kwargs, result):
        yield "what was verified is returned", yes("loaded" in I.globals_ghost and result is I.globals_ghost["loaded"])


def set_difference(I, args, kwargs):
    bad("set operation")


def register(v):
    osworld.register(v)
    import pynini
    v.model(bytearray, new_bytearray, "bytearray")
    v.model(memoryview, new_view, "memoryview")
    v.model(os.fdopen, fdopen, "os.fdopen")
    v.model(os.listdir, listdir, "os.listdir")
    v.model(hashlib.sha256, sha256, "SHA-256 has no collisions")
    v.model(json.loads, loads, "json.loads")
    v.models[id(cache().Fst)] = (cache().Fst, FstClass())
    v.loop(ReadOpen.target, 0, ReadLoop())


def file_method(self, I, name, args, kwargs):
    if name == "decode" and tuple(args) in ((), ("utf-8",), ("utf8",)) and not kwargs:
        return decode(I, self)
    bad("bytes.%s" % name)


FileBytes.py_method = file_method


def prove(v, names=None):
    register(v)
    v.verify(ReadOpen())
    v.contract(ReadOpen())
    v.verify(ReadPath())
    v.verify(ReadAt())
    v.contract(ReadAt())
    v.contract(UnderRoot())
    v.verify(OpenChain())
    v.contract(OpenChain())
    v.verify(LoadPath())
    v.contract(LoadCall())
    v.verify(Load())
