"""The operating system as tn.cache uses it (C08, C11, C12, C13).

Everything that is read from the file system is arbitrary; every call that
changes it carries the obligations of the property under proof (``Policy``).
Descriptors are values with an ``open`` flag; ``fds`` counts the open ones, so
a leak is a failed obligation at the function's exit."""
import errno
import os
import stat

import z3

from lib import pydv
from lib.pydv import BOOL, INT, REAL, STR, Method, Obj, Opaque, PDict, PList, S, Sym, seq, zint
from contracts import fs
from contracts.fs import P, bad, component, yes


class Stat(Sym):
    """The result of stat, lstat or fstat."""

    frozen = True
    REG, DIR, LNK = 1, 2, 3

    def __init__(self, I, tag=""):
        super().__init__()
        self.kind = I.ctx.fresh("kind", INT)
        self.size = I.ctx.fresh("size", INT)
        self.dev, self.ino = I.ctx.fresh("dev", INT), I.ctx.fresh("ino", INT)
        self.mtime = I.ctx.fresh("mtime", REAL)
        I.ctx.assume(z3.And(self.kind >= 1, self.kind <= 4, self.size >= 0))

    def is_dir(self):
        return self.kind == self.DIR

    def is_reg(self):
        return self.kind == self.REG

    def is_link(self):
        return self.kind == self.LNK

    def py_getattr(self, I, name):
        if name == "st_mode":
            return I.sym(Mode(self))
        if name == "st_size":
            return self.size
        if name == "st_dev":
            return self.dev
        if name == "st_ino":
            return self.ino
        if name == "st_mtime":
            return self.mtime
        raise pydv.PyRaise(pydv.ExcVal(AttributeError, (name,)))


class Mode(Sym):
    frozen = True

    def __init__(self, of):
        super().__init__()
        self.of = of

    def py_getattr(self, I, name):
        bad("st_mode.%s" % name)


class Fd(Sym):
    """A descriptor: what it was opened for (``path`` or directory + name)."""

    def __init__(self, I, path=None, name=None, at=None, flags=0):
        super().__init__(open=True, locked=z3.BoolVal(False), stat=Stat(I))
        self.path, self.name, self.at, self.flags = path, name, at, flags

    def py_getattr(self, I, name):
        bad("descriptor.%s" % name)

    def py_eq(self, I, other):
        return self is other


class World(Sym):
    """Ghost state of the process and of the key's directory."""

    def __init__(self, I, policy):
        super().__init__(fds=z3.IntVal(0), locked=z3.BoolVal(False), now=I.ctx.fresh("now", REAL))
        self.policy = policy

    # -- descriptors
    def opened(self, I, fd):
        self.set(I, "fds", self.get("fds") + 1)
        return I.sym(fd)

    def closed(self, I, fd):
        if not isinstance(fd, Fd):
            bad("close of %r" % (fd,))
        I.ctx.prove("the closed descriptor is open", yes(fd.get("open")))
        fd.set(I, "open", False)
        self.set(I, "fds", self.get("fds") - 1)

    def effect(self, I, kind, *what):
        """Every change of the file system goes through here."""
        self.policy.effect(I, self, kind, *what)

    def path_method(self, I, path, name, args, kwargs):
        if name == "mkdir":
            self.effect(I, "mkdirs", path)
            return None
        if name == "unlink":
            self.effect(I, "unlink", path)
            fail(I, "unlink", FileNotFoundError, OSError)
            return None
        if name == "resolve":
            # decided by the file system: anywhere when a link is crossed
            return self.policy.resolved(I, self, path)
        if name in ("iterdir",):
            return self.policy.listing(I, self, path)
        bad("path.%s" % name)


def world(I):
    return I.globals_ghost["fs"]


def os_error(I, cls=OSError, code=None):
    e = pydv.ExcVal(cls, ("from the operating system",))
    e.attrs["errno"] = I.ctx.fresh("errno", INT) if code is None else code
    if cls is FileNotFoundError:
        e.attrs["errno"] = errno.ENOENT
    if cls is OSError:
        # the subclasses that the code tells apart are raised separately
        for code in (errno.ENOENT, errno.EEXIST):
            I.ctx.assume(e.attrs["errno"] != code)
    return e


def fail(I, label, *classes):
    """The call may raise one of the classes, without an effect."""
    for c in classes:
        if I.ctx.choose("%s raises %s" % (label, c.__name__)):
            raise pydv.PyRaise(os_error(I, c))


class Policy:
    """What the effects must satisfy; the default allows none."""

    tag = ""

    def effect(self, I, w, kind, *what):
        I.ctx.prove("%s: no change of the file system here (%s)" % (self.tag, kind), z3.BoolVal(False))

    def resolved(self, I, w, path):
        bad("resolve")

    def listing(self, I, w, path):
        bad("iterdir")


# ------------------------------------------------------------------ the calls
def os_open(I, args, kwargs):
    w = world(I)
    path, flags = args[0], args[1]
    at = kwargs.get("dir_fd")
    if at is not None:
        I.ctx.prove("the directory descriptor is open", yes(isinstance(at, Fd) and at.get("open")))
    if not isinstance(flags, int):
        bad("open flags")
    if flags & (os.O_CREAT | os.O_TRUNC | os.O_WRONLY | os.O_RDWR):
        w.effect(I, "open", path, flags, at)
    fail(I, "open", FileNotFoundError, OSError)
    fd = Fd(I, path=path if at is None else None, name=path if at is not None else None, at=at, flags=flags)
    st = fd.get("stat")
    if flags & os.O_DIRECTORY:
        I.ctx.assume(st.is_dir())
    # an open descriptor is never a link
    I.ctx.assume(z3.Not(st.is_link()))
    return w.opened(I, fd)


def os_close(I, args, kwargs):
    world(I).closed(I, args[0])


def use(I, fd):
    if not isinstance(fd, Fd):
        bad("descriptor %r" % (fd,))
    I.ctx.prove("the descriptor is open", yes(fd.get("open")))
    return fd


def os_fstat(I, args, kwargs):
    fd = use(I, args[0])
    fail(I, "fstat", OSError)
    return fd.get("stat")


def os_lstat(I, args, kwargs):
    w = world(I)
    fail(I, "lstat", FileNotFoundError, OSError)
    st = I.sym(Stat(I))
    hook = getattr(w.policy, "seen", None)
    if hook is not None:
        hook(I, w, args[0], st)
    return st


def os_write(I, args, kwargs):
    fd = use(I, args[0])
    world(I).effect(I, "write", fd, args[1])
    fail(I, "write", OSError)
    n = I.ctx.fresh("written", INT)
    I.ctx.assume(z3.And(n >= -1, n <= zint(I.length(args[1]))))
    return n


def os_read(I, args, kwargs):
    use(I, args[0])
    fail(I, "read", OSError)
    return I.sym(Bytes(I, zint(args[1])))


class Bytes(Sym):
    """Some bytes of which only the length matters."""

    frozen = True

    def __init__(self, I, most=None, length=None):
        super().__init__()
        self.length = length if length is not None else I.ctx.fresh("length", INT)
        I.ctx.assume(self.length >= 0 if most is None else z3.And(self.length >= 0, self.length <= most))

    def py_len(self, I):
        return self.length

    def py_truth(self, I):
        return self.length > 0

    def py_getitem(self, I, index):
        if isinstance(index, slice) and index.stop is None and index.step is None:
            lo = zint(0 if index.start is None else index.start)
            I.ctx.prove("slice inside the data", z3.And(lo >= 0, lo <= self.length))
            return I.sym(Bytes(I, None, self.length - lo))
        bad("byte")

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "decode":
            fail_decode(I)
            return Opaque("text")
        bad("bytes.%s" % name)


def fail_decode(I):
    if I.ctx.choose("not UTF-8"):
        raise pydv.PyRaise(pydv.ExcVal(UnicodeDecodeError, ()))


def no_result(name, *classes):

    def model(I, args, kwargs):
        use(I, args[0])
        world(I).effect(I, name, *args)
        fail(I, name, *classes)

    return model


def quiet(name, *classes):
    """Calls on a descriptor that change nothing."""

    def model(I, args, kwargs):
        use(I, args[0])
        fail(I, name, *classes)

    return model


def mode_model(test):
    def model(I, args, kwargs):
        if not isinstance(args[0], Mode):
            bad("mode")
        return test(args[0].of)
    return model


def register(v):
    fs.register(v)
    v.model(os.open, os_open, "os.open")
    v.model(os.close, os_close, "os.close")
    v.model(os.fstat, os_fstat, "os.fstat")
    v.model(os.lstat, os_lstat, "os.lstat")
    v.model(os.stat, lambda I, args, kwargs: bad("os.stat follows links"), "os.stat")
    v.model(os.write, os_write, "os.write")
    v.model(os.read, os_read, "os.read")
    v.model(os.ftruncate, no_result("ftruncate", OSError), "os.ftruncate")
    v.model(os.lseek, quiet("lseek", OSError), "os.lseek")
    v.model(os.fsync, quiet("fsync", OSError), "os.fsync")
    v.model(stat.S_ISREG, mode_model(Stat.is_reg), "stat.S_ISREG")
    v.model(stat.S_ISDIR, mode_model(Stat.is_dir), "stat.S_ISDIR")
    v.model(stat.S_ISLNK, mode_model(Stat.is_link), "stat.S_ISLNK")


def fresh_bundle(I, known=True):
    """A constructed CacheBundle (postcondition of its constructor).

    ``known=False`` when the argument does not depend on the names."""
    import tn.cache
    prefix, config, digest = S(I.ctx.fresh("prefix", STR)), S(I.ctx.fresh("config_digest", STR)), S(I.ctx.fresh("bundle_digest", STR))
    if known:
        for t in (prefix, config, digest):
            I.ctx.assume(component(t))
        I.ctx.assume(z3.Length(digest.term) == 64)
    root = I.sym(P("root"))
    parent = I.sym(P("root", (prefix, config)))
    return I.new_obj(tn.cache.CacheBundle, {
        "cache_root": root, "prefix": prefix, "config_digest": config, "bundle_digest": digest, "parent": parent, "path": I.sym(P("root", (prefix, config, digest))),
        "lock_path": I.sym(P("root", (prefix, config, pydv.S(pydv.cat(seq("."), digest.term, seq(".lock")))))),
        "builder": Opaque("builder"), "source_fingerprint": Opaque("source fingerprint"), "ordertype": Opaque("ordertype"), "cache_config": Opaque("config")})
