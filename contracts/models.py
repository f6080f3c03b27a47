"""Value models shared by the contracts: symbolic lists, maps and options."""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, IndexIter, Method, Model, Opaque, PDict, PList, Sym, zint


def multi(*terms):
    """A multi-pattern; keeps the terms alive while z3 reads them."""
    return z3.MultiPattern(*terms)


def conj(items):
    items = [i for i in items]
    return z3.And(*items) if items else z3.BoolVal(True)


def index_in(I, index, length):
    """Python's index rule; returns the position or raises IndexError."""
    index, length = zint(index), zint(length)
    if I.ctx.decide(z3.And(index >= 0, index < length)):
        return index
    if I.ctx.decide(z3.And(index < 0, index >= -length)):
        return index + length
    raise pydv.PyRaise(pydv.ExcVal(IndexError, ("index out of range",)))


class Seq(Sym):
    """An immutable sequence: ``length`` and ``elem(I, i)`` -> value.

    ``same(I, i, value)`` is the formula "value is element i"; with it the
    sequence can also be built by append (every append is an obligation)."""

    def __init__(self, length, elem, same=None, tag="", growing=False):
        super().__init__(length=length)
        self.elem, self.same, self.tag, self.growing = elem, same, tag, growing

    def py_len(self, I):
        return zint(self.get("length"))

    def py_truth(self, I):
        return zint(self.get("length")) > 0

    def py_iter(self, I):
        return IndexIter(zint(self.get("length")), self.elem)

    def py_getitem(self, I, index):
        if isinstance(index, slice):
            raise pydv.Unsupported("slice of a symbolic sequence")
        return self.elem(I, index_in(I, index, self.get("length")))

    def py_tuple(self, I):
        return I.sym(Seq(self.get("length"), self.elem, self.same, self.tag))

    def py_list(self, I):
        return I.sym(Seq(self.get("length"), self.elem, self.same, self.tag, True))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if self.growing and self.same is not None:
            n = zint(self.get("length"))
            if name == "append":
                I.ctx.prove("append: the value is element number len() of %s" % self.tag, self.same(I, n, args[0]))
                self.set(I, "length", n + 1)
                return None
            if name == "extend" and isinstance(args[0], Repeat):
                value, count = args[0].get("value"), args[0].get("count")
                b = I.ctx.fresh("b", INT)
                I.ctx.prove("extend: the values are the next elements of %s" % self.tag,
                            z3.Implies(z3.And(b >= n, b < n + count), self.same(I, b, value)))
                self.set(I, "length", n + z3.If(count > 0, count, z3.IntVal(0)))
                return None
            if name == "extend" and isinstance(args[0], (PList, tuple)):
                for x in I.concrete_items(args[0]):
                    self.py_method(I, "append", [x], {})
                return None
        raise pydv.Unsupported("%s of a symbolic sequence" % name)


def is_seq(I, value, length, same, tag):
    """Formula: ``value`` is the sequence of ``length`` elements given by ``same``."""
    if isinstance(value, Seq):
        if value.tag != tag:
            return z3.BoolVal(False)
        return zint(value.get("length")) == length
    if isinstance(value, (PList, tuple, list)):
        items = value.items if isinstance(value, PList) else value
        return z3.And(length == len(items), conj(same(I, z3.IntVal(i), x) for i, x in enumerate(items)))
    return z3.BoolVal(False)


class Repeat(Sym):
    """``[value] * count`` with a symbolic count."""

    def __init__(self, value, count):
        super().__init__(value=value, count=count)

    def py_len(self, I):
        c = self.get("count")
        return z3.If(c > 0, c, z3.IntVal(0))


class OptList(Sym):
    """A list of None or integers, given by two arrays."""

    def __init__(self, length, has, val):
        super().__init__(length=length, has=has, val=val)

    def py_len(self, I):
        return self.get("length")

    def py_getitem(self, I, index):
        i = index_in(I, index, self.get("length"))
        return self.elem(I, i)

    def elem(self, I, i):
        if I.ctx.decide(z3.Select(self.get("has"), i)):
            return z3.Select(self.get("val"), i)
        return None

    def py_iter(self, I):
        return IndexIter(self.get("length"), self.elem)

    def py_setitem(self, I, index, value):
        i = index_in(I, index, self.get("length"))
        self.set(I, "has", z3.Store(self.get("has"), i, z3.BoolVal(value is not None)))
        if value is not None:
            self.set(I, "val", z3.Store(self.get("val"), i, zint(value)))

    def py_getattr(self, I, name):
        return Method(self, name)


NONES = z3.K(INT, z3.BoolVal(False))
ZEROS = z3.K(INT, z3.IntVal(0))


def repeat(I, value, count):
    if value is None:
        return I.sym(OptList(z3.If(count > 0, count, z3.IntVal(0)), NONES, ZEROS))
    return I.sym(Repeat(value, count))


class IntMap(Sym):
    """A dictionary from integers to integers: domain and value arrays."""

    def __init__(self, dom, val):
        super().__init__(dom=dom, val=val)

    def py_contains(self, I, k):
        return z3.Select(self.get("dom"), zint(k))

    def py_getitem(self, I, k):
        if not I.ctx.decide(z3.Select(self.get("dom"), zint(k))):
            raise pydv.PyRaise(pydv.ExcVal(KeyError, (k,)))
        return z3.Select(self.get("val"), zint(k))

    def py_setitem(self, I, k, v):
        self.set(I, "dom", z3.Store(self.get("dom"), zint(k), z3.BoolVal(True)))
        self.set(I, "val", z3.Store(self.get("val"), zint(k), zint(v)))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "get":
            if I.ctx.decide(z3.Select(self.get("dom"), zint(args[0]))):
                return z3.Select(self.get("val"), zint(args[0]))
            return args[1] if len(args) > 1 else None
        raise pydv.Unsupported("dict.%s of an integer map" % name)


def map_arrays(value):
    if isinstance(value, IntMap):
        return value.get("dom"), value.get("val")
    if isinstance(value, PDict):
        dom, val = NONES, ZEROS
        for k, v in value.items.items():
            dom, val = z3.Store(dom, zint(k), z3.BoolVal(True)), z3.Store(val, zint(k), zint(v))
        return dom, val
    return None


class ConcreteMap(Sym):
    """Placeholder for a dict literal whose keys may become symbolic."""
