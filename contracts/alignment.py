"""Contracts of tn/alignment.py (C06; used by C05).

Ghost view of a traced path: arcs 0..K-1, ``IL(k)``/``OL(k)`` their labels,
``IO(k)``/``OO(k)`` the number of input/output bytes before arc k.  Texts are
code point functions; ``BO(i)`` is the byte offset of character i.
"""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, Contract, IndexIter, Loop, Method, Model, Opaque, PDict, PList, PSet, Sym, Text, zint
from contracts import models
from contracts.models import multi, IntMap, OptList, Seq, is_seq, map_arrays

MOD = "tn.alignment"
REL = z3.Function("REL", INT, INT, INT, BOOL)  # transducer, input text, output text


def error_class():
    import tn.alignment
    return tn.alignment.AlignmentError


# ------------------------------------------------------------------- texts
class TextInfo:
    """A symbolic text with its byte offsets."""

    def __init__(self, I, name):
        ctx = I.ctx
        self.name = name
        self.c = ctx.fresh_fn("c_" + name, INT, INT)
        self.BO = ctx.fresh_fn("BO_" + name, INT, INT)
        self.CH = ctx.fresh_fn("CH_" + name, INT, INT)
        self.WS = ctx.fresh_fn("WS_" + name, INT, BOOL)
        self.N = ctx.fresh("N_" + name, INT)
        self.ident = ctx.fresh("text_" + name, INT)
        self.text = Text(self.c, self.N, None)
        self.text.info = self
        i, j, b = z3.Ints("i j b")
        BO, N, CH = self.BO, self.N, self.CH
        ctx.assume(N >= 0)
        ctx.assume(BO(0) == 0)
        ctx.assume(BO(N) >= N)
        # definition of BO and its consequences (lemmas, see ``lemmas``)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i < N), BO(i + 1) == BO(i) + pydv.utf8_len(self.c(i))), patterns=[BO(i + 1)]))
        ctx.assume(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= N), BO(i) < BO(j)), patterns=[multi(BO(i), BO(j))]))
        # CH inverts BO (exists because BO is injective)
        ctx.assume(z3.ForAll([i], z3.Implies(z3.And(i >= 0, i <= N), CH(BO(i)) == i), patterns=[BO(i)]))
        # whitespace by byte (the bytes of a character partition its range)
        ctx.assume(z3.ForAll([i, b], z3.Implies(z3.And(i >= 0, i < N, BO(i) <= b, b < BO(i + 1)), self.WS(b) == pydv.CHAR_PREDICATES["isspace"](self.c(i))),
                             patterns=[multi(self.WS(b), self.c(i))]))

    def boundary(self, b):
        return z3.And(self.CH(b) >= 0, self.CH(b) <= self.N, self.BO(self.CH(b)) == b)

    # the three results of _text_boundaries
    def c2b_elem(self, I, i):
        return self.BO(i)

    def c2b_same(self, I, i, value):
        return self.BO(i) == zint(value)

    def ws_elem(self, I, b):
        return self.WS(b)

    def ws_same(self, I, b, value):
        return self.WS(b) == pydv.zbool(value)


class BoundaryMap(Sym):
    """byte offset -> character index, for the boundaries of characters
    0..count-1; grows one character at a time (an obligation)."""

    def __init__(self, info, count):
        super().__init__(count=count)
        self.info = info

    def py_getitem(self, I, b):
        if b is None:
            raise pydv.PyRaise(pydv.ExcVal(KeyError, (b,)))
        i, n = self.info.CH(zint(b)), self.get("count")
        if not I.ctx.decide(z3.And(i >= 0, i < n, self.info.BO(i) == b)):
            raise pydv.PyRaise(pydv.ExcVal(KeyError, (b,)))
        return i

    def py_contains(self, I, b):
        i = self.info.CH(zint(b))
        return z3.And(i >= 0, i < self.get("count"), self.info.BO(i) == b)

    def py_setitem(self, I, k, v):
        n = self.get("count")
        I.ctx.prove("the new key is the offset of the next character", z3.And(zint(v) == n, zint(k) == self.info.BO(n)))
        self.set(I, "count", n + 1)

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "get":
            if I.ctx.decide(self.py_contains(I, args[0])):
                return self.info.CH(zint(args[0]))
            return args[1] if len(args) > 1 else None
        raise pydv.Unsupported("dict.%s" % name)


def is_boundary_map(I, value, info, count):
    if isinstance(value, BoundaryMap):
        return z3.And(z3.BoolVal(value.info is info), value.get("count") == count)
    if isinstance(value, PDict):
        items = sorted(value.items.items(), key=lambda kv: kv[1])
        return z3.And(count == len(items), *[z3.And(z3.BoolVal(v == n), info.BO(n) == k) for n, (k, v) in enumerate(items)])
    return z3.BoolVal(False)


def info_of(value):
    info = getattr(value, "info", None)
    if info is None:
        raise pydv.Unsupported("a text without byte offsets: %r" % (value,))
    return info


class TextBoundaries(Contract):
    target = MOD + ":_text_boundaries"

    def setup(self, I):
        info = TextInfo(I, "x")
        return [info.text], {}

    def result(self, I, args, kwargs):
        info = info_of(args[0])
        return (I.sym(Seq(info.N + 1, info.c2b_elem, info.c2b_same, "c2b_" + info.name)), I.sym(BoundaryMap(info, info.N + 1)),
                I.sym(Seq(info.BO(info.N), info.ws_elem, info.ws_same, "ws_" + info.name)))

    def post(self, I, old, args, kwargs, result):
        info = info_of(args[0])
        if not isinstance(result, tuple) or len(result) != 3:
            yield "a triple", z3.BoolVal(False)
            return
        a, b, c = result
        yield "byte offset of every character boundary", is_seq(I, a, info.N + 1, info.c2b_same, "c2b_" + info.name)
        yield "character of exactly the boundary offsets", is_boundary_map(I, b, info, info.N + 1)
        yield "whitespace of every byte", is_seq(I, c, info.BO(info.N), info.ws_same, "ws_" + info.name)


class BoundaryLoop(Loop):
    havoc = {
        "character_to_byte": lambda L: L.I.sym(Seq(L.I.ctx.fresh("n", INT), L.info.c2b_elem, L.info.c2b_same, "c2b_" + L.info.name, True)),
        "byte_to_character": lambda L: L.I.sym(BoundaryMap(L.info, L.I.ctx.fresh("n", INT))),
        "byte_is_whitespace": lambda L: L.I.sym(Seq(L.I.ctx.fresh("n", INT), L.info.ws_elem, L.info.ws_same, "ws_" + L.info.name, True)),
        "offset": "int",
    }

    def enter(self, L):
        return {"info": info_of(L["text"])}

    def inv(self, L):
        I, info, i = L.I, L.info, L.state
        i = i[0] if isinstance(i, tuple) else i
        yield "offset is the byte offset of the next character", zint(L["offset"]) == info.BO(i)
        yield "offsets so far", is_seq(I, L["character_to_byte"], i + 1, info.c2b_same, "c2b_" + info.name)
        yield "boundaries so far", is_boundary_map(I, L["byte_to_character"], info, i + 1)
        yield "whitespace so far", is_seq(I, L["byte_is_whitespace"], info.BO(i), info.ws_same, "ws_" + info.name)


# ------------------------------------------------------------------- spans
class Spans:
    """The requested token spans, in characters."""

    def __init__(self, I, name="sp"):
        self.P = I.ctx.fresh_fn("P_" + name, INT, INT)
        self.Q = I.ctx.fresh_fn("Q_" + name, INT, INT)
        self.M = I.ctx.fresh("M_" + name, INT)
        I.ctx.assume(self.M >= 0)
        self.seq = I.sym(Seq(self.M, self.elem, None, "spans_" + name))
        self.seq.spans = self
        self.seq.py_tuple = lambda I: self.seq
        self.seq.py_list = lambda I: self.seq

    def elem(self, I, k):
        return (self.P(k), self.Q(k))

    def prev(self, k):
        return z3.If(k == 0, z3.IntVal(0), self.Q(k - 1))

    def bad(self, info, k):
        return z3.Or(self.P(k) < self.prev(k), self.Q(k) < self.P(k), self.Q(k) > info.N)

    def empty(self, k):
        return self.P(k) == self.Q(k)

    def ok(self, info, k, reject):
        return z3.And(z3.Not(self.bad(info, k)), z3.Not(z3.And(pydv.zbool(reject), self.empty(k))))

    def ordered(self, n):
        """Consequences of all_ok over any two spans."""
        j, k = z3.Ints("j k")
        yield z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j < k, k < n), self.Q(j) <= self.P(k)), patterns=[multi(self.P(j), self.P(k))])
        yield z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), z3.And(self.P(k) >= 0, self.P(k) <= self.Q(k))), patterns=[self.P(k)])

    def all_ok(self, info, n, reject):
        k = z3.Int("k")
        return z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < n), self.ok(info, k, reject)), patterns=[self.P(k)])


class ByteSpans(Seq):

    def __init__(self, info, spans, length, growing=False):
        super().__init__(length, lambda I, k: (info.BO(spans.P(k)), info.BO(spans.Q(k))), lambda I, k, v: same_pair(v, info.BO(spans.P(k)), info.BO(spans.Q(k))),
                         "bytes", growing)
        self.info, self.spans = info, spans

    def py_tuple(self, I):
        return I.sym(ByteSpans(self.info, self.spans, self.get("length")))


def same_pair(v, a, b):
    if isinstance(v, tuple) and len(v) == 2 and all(pydv.is_int(x) for x in v):
        return z3.And(zint(v[0]) == a, zint(v[1]) == b)
    return z3.BoolVal(False)


def is_byte_spans(I, value, info, spans, n):
    if isinstance(value, ByteSpans):
        return z3.And(z3.BoolVal(value.info is info and value.spans is spans), value.get("length") == n)
    return is_seq(I, value, n, lambda I, k, v: same_pair(v, info.BO(spans.P(k)), info.BO(spans.Q(k))), "bytes")


class SpansToBytes(Contract):
    target = MOD + ":_character_spans_to_byte_spans"

    def setup(self, I):
        info = TextInfo(I, "x")
        spans = Spans(I)
        reject = I.ctx.fresh("reject_empty", BOOL)
        c2b = I.sym(Seq(info.N + 1, info.c2b_elem, info.c2b_same, "c2b_" + info.name))
        return [info.text, c2b, spans.seq, reject], {}

    def parts(self, args, kwargs):
        names = ["text", "character_to_byte", "spans", "reject_empty"]
        v = dict(zip(names, args))
        v.update(kwargs)
        v.setdefault("reject_empty", False)
        return info_of(v["text"]), v["character_to_byte"], getattr(v["spans"], "spans", None), v["reject_empty"]

    def pre(self, I, args, kwargs):
        info, c2b, spans, reject = self.parts(args, kwargs)
        yield "the offsets belong to the text", is_seq(I, c2b, info.N + 1, info.c2b_same, "c2b_" + info.name)
        yield "spans are character pairs", z3.BoolVal(spans is not None)

    def result(self, I, args, kwargs):
        info, _, spans, _ = self.parts(args, kwargs)
        return I.sym(ByteSpans(info, spans, spans.M))

    def post(self, I, old, args, kwargs, result):
        info, _, spans, reject = self.parts(args, kwargs)
        yield "every span is ordered, inside the text and not refused", spans.all_ok(info, spans.M, reject)
        for n, f in enumerate(spans.ordered(spans.M)):
            yield "any two spans are ordered (%d)" % n, f
        yield "the byte span of every requested span", is_byte_spans(I, result, info, spans, spans.M)

    def misaligned(self, I, old, args, kwargs, exc):
        info, _, spans, _ = self.parts(args, kwargs)
        k = z3.Int("k")
        yield "some span is out of order or outside the text", z3.Exists([k], z3.And(k >= 0, k < spans.M, spans.bad(info, k)))

    def refused(self, I, old, args, kwargs, exc):
        info, _, spans, reject = self.parts(args, kwargs)
        k = z3.Int("k")
        yield "an empty span was refused", z3.And(pydv.zbool(reject), z3.Exists([k], z3.And(k >= 0, k < spans.M, spans.empty(k))))

    @property
    def raises(self):
        return {error_class(): SpansToBytes.misaligned, ValueError: SpansToBytes.refused}


class SpansLoop(Loop):
    havoc = {"previous_end": "int", "normalized": lambda L: L.I.sym(ByteSpans(L.info, L.spans, L.I.ctx.fresh("n", INT), True))}

    def enter(self, L):
        return {"info": info_of(L["text"]), "spans": L["spans"].spans}

    def inv(self, L):
        yield "end of the previous span", z3.And(zint(L["previous_end"]) == L.spans.prev(L.state), zint(L["previous_end"]) >= 0)
        yield "spans so far are valid", L.spans.all_ok(L.info, L.state, L["reject_empty"])
        j = z3.Int("j")
        yield "earlier spans end before", z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < L.state), L.spans.Q(j) <= L.spans.prev(L.state)), patterns=[L.spans.P(j)])
        for n, f in enumerate(L.spans.ordered(L.state)):
            yield "any two spans are ordered (%d)" % n, f
        yield "byte spans so far", is_byte_spans(L.I, L["normalized"], L.info, L.spans, L.state)


# ------------------------------------------------------ transducers and paths
class Fst(Sym):
    """An external automaton, described by what it was composed from."""

    def __init__(self, parts):
        super().__init__()
        self.parts = parts

    def py_binop(self, I, op, a, b):
        if type(op).__name__ == "MatMult" and isinstance(a, Fst) and isinstance(b, Fst):
            I.v.used_models.add("pynini composition @")
            return I.sym(Fst(a.parts + b.parts))
        raise pydv.Unsupported("operator on an automaton")


class Escaped(Sym):

    def __init__(self, text):
        super().__init__()
        self.text = text


def m_escape(I, args, kwargs):
    return I.sym(Escaped(args[0]))


def m_accep(I, args, kwargs):
    if len(args) != 1 or kwargs or not isinstance(args[0], Escaped):
        raise pydv.Unsupported("accep of an unescaped text")
    return I.sym(Fst([("acceptor", info_of(args[0].text))]))


class Arc(Sym):

    def __init__(self, path, k):
        super().__init__()
        self.path, self.k = path, k

    def py_getattr(self, I, name):
        p = self.path
        if name == "ilabel":
            return p.IL(self.k)
        if name == "olabel":
            return p.OL(self.k)
        if name == "nextstate":
            return p.ST(self.k + 1)
        raise pydv.Unsupported("arc.%s" % name)


class StateArc(Sym):
    """An arc of a state: arc ``i`` of ``state``."""

    def __init__(self, path, state):
        super().__init__()
        self.path, self.state = path, state

    def py_getattr(self, I, name):
        if name == "nextstate":
            I.ctx.assume(z3.And(self.path.NEXT(self.state) >= 0, self.path.NEXT(self.state) < self.path.NQ))
            return self.path.NEXT(self.state)
        raise pydv.Unsupported("arc.%s" % name)


class PathFst(Sym):
    """The automaton returned by shortestpath (n=1).

    NARCS(q) arcs leave state q, NEXT(q) is the target of the only one."""

    def __init__(self, I, lattice):
        super().__init__()
        ctx = I.ctx
        self.lattice = lattice
        self.START = ctx.fresh("start", INT)
        self.NQ = ctx.fresh("NQ", INT)
        self.NARCS = ctx.fresh_fn("NARCS", INT, INT)
        self.NEXT = ctx.fresh_fn("NEXT", INT, INT)
        self.K = ctx.fresh("K", INT)
        self.IL, self.OL = ctx.fresh_fn("IL", INT, INT), ctx.fresh_fn("OL", INT, INT)
        self.IO, self.OO = ctx.fresh_fn("IO", INT, INT), ctx.fresh_fn("OO", INT, INT)
        self.ST = ctx.fresh_fn("STATE", INT, INT)
        ctx.assume(z3.And(self.START >= -1, self.START < self.NQ, self.NQ >= 0))
        self.output = self.REPEATED = None
        k, j = z3.Ints("k j")
        IO, OO, IL, OL = self.IO, self.OO, self.IL, self.OL
        ctx.assume(z3.And(self.K >= 0, IO(0) == 0, OO(0) == 0))

        def count(f, lab):
            ctx.assume(z3.ForAll([k], z3.Implies(k >= 0, f(k + 1) == f(k) + z3.If(lab(k) == 0, 0, 1)), patterns=[f(k + 1)]))
            # monotone (lemma)
            ctx.assume(z3.ForAll([k, j], z3.Implies(z3.And(k >= 0, k <= j), f(k) <= f(j)), patterns=[multi(f(k), f(j))]))

        count(IO, IL)
        count(OO, OL)

    def relation(self, I, x, y):
        """A non-empty path spells the input and output of the lattice."""
        I.ctx.assume(z3.Implies(self.START != -1, z3.And(self.IO(self.K) == x.BO(x.N), self.OO(self.K) == y.BO(y.N))))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        I.v.used_models.add("pynini Fst.%s" % name)
        if name == "start":
            return self.START
        if name == "arcs":
            q = args[0]
            I.ctx.prove("arcs() is asked for a state of the automaton", z3.And(zint(q) >= 0, zint(q) < self.NQ))
            I.ctx.assume(self.NARCS(q) >= 0)
            return I.sym(Seq(self.NARCS(q), lambda I, i: I.sym(StateArc(self, q)), None, "arcs"))
        if name == "string":
            if self.output is None:
                raise pydv.Unsupported("string() of an automaton that is not a single path")
            return self.output.text
        raise pydv.Unsupported("Fst.%s" % name)


def m_shortestpath(I, args, kwargs):
    names = dict(zip(["fst", "nshortest"], args))
    names.update(kwargs)
    lattice = names.pop("fst", None)
    if not isinstance(lattice, Fst) or names.pop("nshortest", 1) != 1 or names.pop("unique", False) not in (True, False) or names:
        raise pydv.Unsupported("shortestpath with these arguments")
    path = I.sym(PathFst(I, lattice))
    kinds = [p[0] for p in lattice.parts]
    if kinds not in (["acceptor", "fst"], ["acceptor", "fst", "acceptor"]):
        raise pydv.Unsupported("shortest path of an unknown lattice")
    x = lattice.parts[0][1]
    y = lattice.parts[2][1] if len(kinds) == 3 else None
    if y is None:
        y = TextInfo(I, "sel")
    path.relation(I, x, y)
    path.output = y
    I.ctx.assume(z3.Implies(path.START != -1, REL(lattice.parts[1][1], x.ident, y.ident)))
    I.globals_ghost["path"] = path
    return path


class ArcSeq(Sym):
    """What the generator yields: arcs 0..K-1 of the path, then it returns,
    or it raises AlignmentError (no path, not linear, cyclic)."""

    def __init__(self, path):
        super().__init__()
        self.path = path

    def py_iter(self, I):
        return ArcIter(self.path)


class ArcIter(IndexIter):

    def __init__(self, path):
        super().__init__(path.K, lambda I, k: I.sym(Arc(path, k)))
        self.path = path

    def done(self, I, state):
        if I.ctx.choose("the path cannot be followed"):
            I.globals_ghost["not linear"] = True
            raise pydv.PyRaise(pydv.ExcVal(error_class(), ("from the generator",)))
        I.ctx.assume(self.path.START != -1)
        return super().done(I, state)


class LinearArcs(Contract):
    """Generator: the k-th yielded arc is the only arc of the k-th state."""
    target = MOD + ":_linear_arcs"

    def setup(self, I):
        path = I.sym(PathFst(I, None))
        path.yielded = I.sym(Counter(path))
        self.path = path
        return [path], {}

    def frame(self, I, args, kwargs):
        return [(args[0].yielded, "n")] if hasattr(args[0], "yielded") else []

    def yielded(self, I, old, args, kwargs, value):
        path = args[0]
        n = path.yielded.get("n")
        ok = isinstance(value, StateArc) and value.path is path
        I.ctx.prove("yields the only arc of the current state", z3.And(z3.BoolVal(ok), *([value.state == path.ST(n), path.NARCS(path.ST(n)) == 1] if ok else [])))
        I.ctx.assume(path.ST(n + 1) == path.NEXT(path.ST(n)))
        path.yielded.set(I, "n", n + 1)

    def apply(self, I, args, kwargs):
        I.v.used_contracts.add(self.target)
        return I.sym(ArcSeq(args[0]))

    def post(self, I, old, args, kwargs, result):
        path = args[0]
        n = path.yielded.get("n")
        yield "stops where no arc leaves", path.NARCS(path.ST(n)) == 0
        yield "there is a path", path.START != -1

    def refused(self, I, old, args, kwargs, exc):
        path = args[0]
        n = path.yielded.get("n")
        yield "there is no linear path", z3.Or(path.START == -1, path.NARCS(path.ST(n)) > 1, path.REPEATED(n) if path.REPEATED is not None else z3.BoolVal(False))

    @property
    def raises(self):
        return {error_class(): LinearArcs.refused}


class Counter(Sym):

    def __init__(self, path):
        super().__init__(n=z3.IntVal(0))


class StateSet(Sym):
    """The set of visited states; its size is bounded by the states."""

    def __init__(self, has, size):
        super().__init__(has=has, size=size)

    def py_contains(self, I, item):
        return z3.Select(self.get("has"), zint(item))

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "add":
            q = zint(args[0])
            new = z3.Not(z3.Select(self.get("has"), q))
            self.set(I, "size", self.get("size") + z3.If(new, 1, 0))
            self.set(I, "has", z3.Store(self.get("has"), q, z3.BoolVal(True)))
            return None
        raise pydv.Unsupported("set.%s" % name)


def set_view(value):
    if isinstance(value, StateSet):
        return value.get("has"), value.get("size")
    if isinstance(value, PSet) and not value.items:
        return models.NONES, z3.IntVal(0)
    return None


class LinearLoop(Loop):
    havoc = {"visited": lambda L: L.I.sym(StateSet(L.I.ctx.fresh("has", z3.ArraySort(INT, BOOL)), L.I.ctx.fresh("size", INT))), "state": "int"}

    def enter(self, L):
        path = L["path"]
        path.REPEATED = L.I.ctx.fresh_fn("REPEATED", INT, BOOL)
        # visited so far: states 0..n-1 of the walk
        path.VIS = L.I.ctx.fresh_fn("VIS", INT, z3.ArraySort(INT, BOOL))
        L.I.ctx.assume(path.ST(0) == path.START)
        L.I.ctx.assume(path.VIS(0) == models.NONES)
        return {"path": path}

    def modifies(self, L):
        yield L.path.yielded, "n", "int"

    def assumes(self, L):
        p, n = L.path, L.path.yielded.get("n")
        yield p.VIS(n + 1) == z3.Store(p.VIS(n), p.ST(n), z3.BoolVal(True))
        yield p.REPEATED(n) == z3.Select(p.VIS(n), p.ST(n))
        # pigeonhole, justified by the invariant "only states are visited": a
        # set of states is not larger than the state space
        yield set_view(L["visited"])[1] <= p.NQ

    def inv(self, L):
        p = L.path
        n = p.yielded.get("n")
        view = set_view(L["visited"])
        q = z3.Int("q")
        yield "counted arcs", n >= 0
        yield "the state reached by the arcs yielded so far", z3.And(zint(L["state"]) == p.ST(n), p.ST(n) >= 0, p.ST(n) < p.NQ)
        yield "visited is the set of states passed so far", z3.BoolVal(False) if view is None else view[0] == p.VIS(n)
        yield "only states are visited", z3.BoolVal(False) if view is None else z3.ForAll(
            [q], z3.Implies(z3.Select(view[0], q), z3.And(q >= 0, q < p.NQ)))
        yield "no state was passed twice", z3.BoolVal(False) if view is None else view[1] == n

    def variant(self, L):
        return L.path.NQ - set_view(L["visited"])[1]


# ----------------------------------------------------- ownership, input side
class Owner:
    """Ghost functions of one trace: what token t owns before arc k."""

    def __init__(self, I, name):
        self.D = I.ctx.fresh_fn("D_" + name, INT, INT, BOOL)
        self.A = I.ctx.fresh_fn("A_" + name, INT, INT, INT)
        self.B = I.ctx.fresh_fn("B_" + name, INT, INT, INT)

    def base(self, t):
        return z3.Not(self.D(0, t))

    def step(self, k, t, owns, at):
        """After arc k: the first owned position, the end of the last one."""
        D, A, B = self.D, self.A, self.B
        return z3.And(D(k + 1, t) == z3.Or(D(k, t), owns), A(k + 1, t) == z3.If(D(k, t), A(k, t), at), B(k + 1, t) == z3.If(owns, at + 1, B(k, t)))


def owns_input(p, x, y, sp, own, k, t):
    """Arc k consumes an input byte which belongs to token t: the path is
    inside the token's output (and has begun to emit it), except for
    whitespace deleted before the token owns anything; or the byte is aligned
    with the separator just in front of the token and is no whitespace."""
    i, o, il, ol = p.IO(k), p.OO(k), p.IL(k) != 0, p.OL(k) != 0
    S, E = y.BO(sp.P(t)), y.BO(sp.Q(t))
    inside = z3.And(S <= o, o < E, z3.Or(ol, S < o), z3.Or(ol, z3.Not(x.WS(i)), own.D(k, t)))
    ahead = z3.And(ol, o + 1 == S, y.BO(sp.prev(t)) <= o, z3.Not(x.WS(i)))
    return z3.And(il, z3.Or(inside, ahead))


def opt_view(value):
    if isinstance(value, OptList):
        return value
    return None


def same_opts(value, own, k, n):
    v = opt_view(value[0]), opt_view(value[1])
    if v[0] is None or v[1] is None:
        return z3.BoolVal(False)
    t = z3.Int("t")
    a, b = v
    return z3.And(a.get("length") == n, b.get("length") == n, z3.ForAll([t], z3.Implies(
        z3.And(t >= 0, t < n), z3.And(z3.Select(a.get("has"), t) == own.D(k, t), z3.Select(b.get("has"), t) == own.D(k, t), z3.Implies(
            own.D(k, t), z3.And(z3.Select(a.get("val"), t) == own.A(k, t), z3.Select(b.get("val"), t) == own.B(k, t))))), patterns=[own.D(k, t)]))


def fresh_opts(L):
    I = L.I
    return I.sym(OptList(I.ctx.fresh("len", INT), I.ctx.fresh("has", z3.ArraySort(INT, BOOL)), I.ctx.fresh("val", z3.ArraySort(INT, INT))))


class TraceInput(Contract):
    target = MOD + ":trace_input_spans"

    def setup(self, I):
        x, y = TextInfo(I, "x"), TextInfo(I, "y")
        fst = I.sym(Fst([("fst", I.ctx.fresh("fst", INT))]))
        spans = Spans(I)
        I.globals_ghost.update(x=x, y=y, spans=spans)
        return [x.text, y.text, fst, spans.seq], {}

    def result(self, I, args, kwargs):
        raise NotImplementedError

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        x, y, sp = g["x"], g["y"], g["spans"]
        p, own = g.get("path"), g.get("own")
        if p is None or own is None:
            yield "a path of the transducer was traced", z3.BoolVal(False)
            return
        yield "the transducer relates the input and the requested output", REL(args[2].parts[0][1], x.ident, y.ident)
        yield "the whole path was followed", p.IO(p.K) == x.BO(x.N)
        yield "one span per token: the input it owns, at character boundaries", is_seq(
            I, result, sp.M, lambda I, t, v: z3.And(own.D(p.K, t), x.boundary(own.A(p.K, t)), x.boundary(own.B(p.K, t)),
                                                    same_pair(v, x.CH(own.A(p.K, t)), x.CH(own.B(p.K, t)))), "input spans")
        t = z3.Int("t")
        yield "every token owns input and its span ends at character boundaries", z3.ForAll([t], z3.Implies(
            z3.And(t >= 0, t < sp.M), z3.And(own.D(p.K, t), x.boundary(own.A(p.K, t)), x.boundary(own.B(p.K, t)))))

    def failed(self, I, old, args, kwargs, exc):
        g = I.globals_ghost
        x, y, sp = g["x"], g["y"], g["spans"]
        p, own = g.get("path"), g.get("own")
        t = z3.Int("t")
        reasons = [z3.Exists([t], z3.And(t >= 0, t < sp.M, sp.bad(y, t)))]
        if p is not None:
            reasons.append(p.START == -1)
        if g.get("not linear"):
            reasons.append(z3.BoolVal(True))
        if "token" in g:
            w = g["token"]
            reasons.append(z3.And(w >= 0, w < sp.M, z3.Not(z3.And(own.D(p.K, w), x.boundary(own.A(p.K, w)), x.boundary(own.B(p.K, w))))))
        yield "the request is invalid, there is no path, or a token owns no whole characters", z3.Or(*reasons)

    @property
    def raises(self):
        return {error_class(): TraceInput.failed}


class TraceLoop(Loop):
    havoc = {"input_offset": "int", "output_offset": "int", "token_index": "int", "consumed_starts": fresh_opts, "consumed_ends": fresh_opts}

    def enter(self, L):
        g = L.I.globals_ghost
        own = g["own"] = Owner(L.I, "in")
        t = z3.Int("t")
        L.I.ctx.assume(z3.ForAll([t], own.base(t), patterns=[own.D(0, t)]))
        return {"p": g["path"], "x": g["x"], "y": g["y"], "sp": g["spans"], "own": own}

    def assumes(self, L):
        t = z3.Int("t")
        k = L.state
        yield z3.ForAll([t], L.own.step(k, t, owns_input(L.p, L.x, L.y, L.sp, L.own, k, t), L.p.IO(k)), patterns=[L.own.D(k + 1, t)])

    def inv(self, L):
        p, y, sp, k = L.p, L.y, L.sp, L.state
        t = z3.Int("t")
        ti = zint(L["token_index"])
        yield "input bytes before the arc", zint(L["input_offset"]) == p.IO(k)
        yield "output bytes before the arc", zint(L["output_offset"]) == p.OO(k)
        yield "token index", z3.And(ti >= 0, ti <= sp.M)
        yield "tokens before the index are finished", z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ti), y.BO(sp.Q(t)) <= p.OO(k)), patterns=[sp.Q(t)])
        yield "what every token owns so far", same_opts((L["consumed_starts"], L["consumed_ends"]), L.own, k, sp.M)


class SkipLoop(Loop):
    """The inner loop: skips the tokens that end before the offset."""
    havoc = {"token_index": "int"}

    def __init__(self, text, offset, spans):
        self.text, self.offset, self.spans = text, offset, spans

    def inv(self, L):
        g = L.I.globals_ghost
        sp, y = g["spans"], g[self.text]
        t = z3.Int("t")
        ti = zint(L["token_index"])
        yield "token index", z3.And(ti >= 0, ti <= sp.M)
        yield "skipped tokens end before the offset", z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ti), y.BO(sp.Q(t)) <= zint(L[self.offset])),
                                                                patterns=[sp.Q(t)])

    def variant(self, L):
        return L.I.globals_ghost["spans"].M - zint(L["token_index"])


class CollectInput(Loop):

    def spans_list(L):
        g = L.I.globals_ghost
        x, p, own = g["x"], g["path"], g["own"]
        return L.I.sym(Seq(L.I.ctx.fresh("n", INT), lambda I, t: (x.CH(own.A(p.K, t)), x.CH(own.B(p.K, t))), CollectInput.same(g), "input spans", True))

    @staticmethod
    def same(g):
        x, p, own = g["x"], g["path"], g["own"]
        return lambda I, t, v: z3.And(own.D(p.K, t), x.boundary(own.A(p.K, t)), x.boundary(own.B(p.K, t)),
                                      same_pair(v, x.CH(own.A(p.K, t)), x.CH(own.B(p.K, t))))

    havoc = {"spans": spans_list}

    def inv(self, L):
        g = L.I.globals_ghost
        x, p, own = g["x"], g["path"], g["own"]
        g["token"] = L.state
        t = z3.Int("t")
        yield "spans so far", is_seq(L.I, L["spans"], L.state, self.same(g), "input spans")
        yield "tokens so far own whole characters", z3.ForAll([t], z3.Implies(
            z3.And(t >= 0, t < L.state), z3.And(own.D(p.K, t), x.boundary(own.A(p.K, t)), x.boundary(own.B(p.K, t)))))


def install(v):
    import tn.alignment
    m = tn.alignment
    v.repeat_model = models.repeat
    v.heavy = {"same_opts"}
    v.contract(TextBoundaries())
    v.contract(SpansToBytes())
    v.contract(LinearArcs())
    v.contract(TraceInput())
    v.loop(MOD + ":_text_boundaries", 0, BoundaryLoop())
    v.loop(MOD + ":_character_spans_to_byte_spans", 0, SpansLoop())
    v.loop(MOD + ":_linear_arcs", 0, LinearLoop())
    v.loop(MOD + ":trace_input_spans", 0, TraceLoop())
    v.loop(MOD + ":trace_input_spans", 1, SkipLoop("y", "output_offset", "output_byte_spans"))
    v.loop(MOD + ":trace_input_spans", 2, CollectInput())
    install_transduce(v)
    v.model(m.escape, m_escape, "pynini.escape")
    v.model(m.accep, m_accep, "pynini.accep")
    v.model(m.shortestpath, m_shortestpath, "pynini.shortestpath")


def prove(v, names=None):
    install(v)
    for target in ("_text_boundaries", "_character_spans_to_byte_spans", "_linear_arcs", "trace_input_spans", "transduce_with_spans"):
        c = v.contracts.get(MOD + ":" + target)
        if c is not None and (names is None or target in names):
            v.verify(c)


# ---------------------------------------------------- ownership, output side
def owns_output(p, x, y, sp, own, k, t):
    """Arc k emits an output byte which belongs to token t."""
    i, o, il, ol = p.IO(k), p.OO(k), p.IL(k) != 0, p.OL(k) != 0

    def S(u):
        return x.BO(sp.P(u))

    def E(u):
        return x.BO(sp.Q(u))

    inside = z3.And(S(t) < i, i < E(t))
    # an epsilon arc at a token start is only inside the very first token
    leading = z3.And(t == 0, i == S(0), i < E(0))
    # the token after t is not entered yet (or there is none)
    before_next = z3.Or(t == sp.M - 1, z3.And(i <= S(t + 1), i < E(t + 1)))
    delayed = z3.And(E(t) <= i, before_next, z3.Not(y.WS(o)))
    return z3.And(ol, z3.If(il, z3.And(S(t) <= i, i < E(t)), z3.Or(inside, leading, delayed)))


class Transduce(Contract):
    target = MOD + ":transduce_with_spans"

    def setup(self, I):
        x = TextInfo(I, "x")
        fst = I.sym(Fst([("fst", I.ctx.fresh("fst", INT))]))
        spans = Spans(I)
        I.globals_ghost.update(x=x, spans=spans)
        I.globals_ghost.pop("requested", None)
        if I.ctx.choose("an output is requested"):
            y = TextInfo(I, "y")
            I.globals_ghost["requested"] = y
            return [x.text, fst, spans.seq], {"output_text": y.text}
        return [x.text, fst, spans.seq], {}

    def output_list(self, g):
        y = g["y"]
        RS, RE = g["RS"], g["RE"]
        return lambda I, t, v: z3.And(y.boundary(RS(t)), y.boundary(RE(t)), same_pair(v, y.CH(RS(t)), y.CH(RE(t))))

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        p, own = g.get("path"), g.get("own")
        if p is None or own is None or not isinstance(result, tuple) or len(result) != 2:
            yield "a path of the transducer was traced", z3.BoolVal(False)
            return
        x, y, sp = g["x"], p.output, g["spans"]
        yield "the output returned is the traced one", z3.BoolVal(getattr(result[0], "info", None) is y)
        yield "the transducer relates the input and the output", REL(args[1].parts[0][1], x.ident, y.ident)
        if "requested" in g:
            yield "the traced output is the requested one", z3.BoolVal(y is g["requested"])
        yield "the whole path was followed", z3.And(p.IO(p.K) == x.BO(x.N), p.OO(p.K) == y.BO(y.N))
        yield "one span per token, at character boundaries", is_seq(I, result[1], sp.M, self.output_list(g), "output spans")
        t, u = z3.Ints("t u")
        RS, RE = g["RS"], g["RE"]
        yield "spans are inside the output, ordered and do not overlap", z3.ForAll([t], z3.Implies(
            z3.And(t >= 0, t < sp.M), z3.And(RS(t) >= z3.If(t == 0, 0, RE(t - 1)), RE(t) >= RS(t), y.boundary(RS(t)), y.boundary(RE(t)))),
                                                                                   patterns=[RS(t)])

    def failed(self, I, old, args, kwargs, exc):
        g = I.globals_ghost
        x, sp = g["x"], g["spans"]
        p, own = g.get("path"), g.get("own")
        t = z3.Int("t")
        reasons = [z3.Exists([t], z3.And(t >= 0, t < sp.M, sp.bad(x, t)))]
        if p is not None:
            reasons.append(p.START == -1)
        if g.get("not linear"):
            reasons.append(z3.BoolVal(True))
        if "token" in g:
            w, y = g["token"], p.output
            RS, RE = g["RS"], g["RE"]
            ok = z3.And(RS(w) >= z3.If(w == 0, 0, RE(w - 1)), y.boundary(RS(w)), y.boundary(RE(w)))
            reasons.append(z3.And(w >= 0, w < sp.M, z3.Not(ok)))
        yield "the request is invalid, there is no path, or a token's output is out of order or splits a character", z3.Or(*reasons)

    def refused(self, I, old, args, kwargs, exc):
        sp = I.globals_ghost["spans"]
        t = z3.Int("t")
        yield "an empty span was requested", z3.Exists([t], z3.And(t >= 0, t < sp.M, sp.empty(t)))

    @property
    def raises(self):
        return {error_class(): Transduce.failed, ValueError: Transduce.refused}


class TransduceLoop(Loop):
    havoc = {
        "input_offset": "int",
        "output_offset": "int",
        "token_index": "int",
        "emitted_starts": fresh_opts,
        "emitted_ends": fresh_opts,
        "boundary_offsets": lambda L: L.I.sym(IntMap(L.I.ctx.fresh("dom", z3.ArraySort(INT, BOOL)), L.I.ctx.fresh("val", z3.ArraySort(INT, INT)))),
    }

    def enter(self, L):
        I = L.I
        g = I.globals_ghost
        own = g["own"] = Owner(I, "out")
        p = g["path"]
        g["y"] = p.output
        # output emitted before an input position is consumed
        g["BD"] = I.ctx.fresh_fn("BD", INT, z3.ArraySort(INT, BOOL))
        g["BV"] = I.ctx.fresh_fn("BV", INT, z3.ArraySort(INT, INT))
        I.ctx.assume(z3.And(g["BD"](0) == models.NONES, g["BV"](0) == models.ZEROS))
        t = z3.Int("t")
        I.ctx.assume(z3.ForAll([t], own.base(t), patterns=[own.D(0, t)]))
        return {"p": p, "x": g["x"], "y": g["y"], "sp": g["spans"], "own": own, "BD": g["BD"], "BV": g["BV"]}

    def assumes(self, L):
        t = z3.Int("t")
        k, p = L.state, L.p
        yield z3.ForAll([t], L.own.step(k, t, owns_output(p, L.x, L.y, L.sp, L.own, k, t), p.OO(k)), patterns=[L.own.D(k + 1, t)])
        yield z3.And(L.BD(k + 1) == z3.Store(L.BD(k), p.IO(k), z3.BoolVal(True)), L.BV(k + 1) == z3.Store(L.BV(k), p.IO(k), p.OO(k)))

    def inv(self, L):
        p, x, sp, k = L.p, L.x, L.sp, L.state
        t = z3.Int("t")
        ti = zint(L["token_index"])
        yield "input bytes before the arc", zint(L["input_offset"]) == p.IO(k)
        yield "output bytes before the arc", zint(L["output_offset"]) == p.OO(k)
        yield "token index", z3.And(ti >= 0, ti <= sp.M)
        yield "tokens before the index are finished", z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < ti), x.BO(sp.Q(t)) <= p.IO(k)), patterns=[sp.Q(t)])
        yield "what every token owns so far", same_opts((L["emitted_starts"], L["emitted_ends"]), L.own, k, sp.M)
        m = map_arrays(L["boundary_offsets"])
        yield "output emitted at every input position so far", z3.BoolVal(False) if m is None else z3.And(m[0] == L.BD(k), m[1] == L.BV(k))
        yield "owned output lies before the arc", self.owned_before(L.own, p, sp, k)

    def owned_before(self, own, p, sp, k):
        t = z3.Int("t")
        return z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < sp.M, own.D(k, t)), z3.And(own.A(k, t) >= 0, own.A(k, t) < own.B(k, t), own.B(k, t) <= p.OO(k))),
                         patterns=[own.D(k, t)])


def output_rule(g, t):
    """Where token t goes in the output: its owned range, or an empty range
    after everything emitted at its starting boundary and after the previous
    token."""
    p, own, x, sp = g["path"], g["own"], g["x"], g["spans"]
    RS, RE = g["RS"], g["RE"]
    S = x.BO(sp.P(t))
    dom = z3.Store(g["BD"](p.K), p.IO(p.K), z3.BoolVal(True))
    val = z3.Store(g["BV"](p.K), p.IO(p.K), p.OO(p.K))
    prev = z3.If(t == 0, z3.IntVal(0), RE(t - 1))
    at = z3.If(z3.Select(dom, S), z3.Select(val, S), p.OO(p.K))
    empty = z3.If(at > prev, at, prev)
    return z3.If(own.D(p.K, t), z3.And(RS(t) == own.A(p.K, t), RE(t) == own.B(p.K, t)), z3.And(RS(t) == empty, RE(t) == empty))


class CollectOutput(Loop):

    def spans_list(L):
        g = L.I.globals_ghost
        y, RS, RE = g["y"], g["RS"], g["RE"]
        return L.I.sym(Seq(L.I.ctx.fresh("n", INT), lambda I, t: (y.CH(RS(t)), y.CH(RE(t))), Transduce.output_list(None, g), "output spans", True))

    havoc = {"output_spans": spans_list, "previous_end": "int"}

    def enter(self, L):
        g = L.I.globals_ghost
        g["RS"], g["RE"] = L.I.ctx.fresh_fn("RS", INT, INT), L.I.ctx.fresh_fn("RE", INT, INT)
        return {}

    def assumes(self, L):
        yield output_rule(L.I.globals_ghost, L.state)

    def inv(self, L):
        g = L.I.globals_ghost
        g["token"] = L.state
        y, RS, RE = g["y"], g["RS"], g["RE"]
        t = z3.Int("t")
        yield "spans so far", is_seq(L.I, L["output_spans"], L.state, Transduce.output_list(None, g), "output spans")
        yield "end of the previous span", zint(L["previous_end"]) == z3.If(L.state == 0, 0, RE(L.state - 1))
        yield "spans so far are ordered", z3.ForAll([t], z3.Implies(
            z3.And(t >= 0, t < L.state), z3.And(RS(t) >= z3.If(t == 0, 0, RE(t - 1)), RE(t) >= RS(t), y.boundary(RS(t)), y.boundary(RE(t)))), patterns=[RS(t)])


def install_transduce(v):
    v.contract(Transduce())
    v.loop(MOD + ":transduce_with_spans", 0, TransduceLoop())
    v.loop(MOD + ":transduce_with_spans", 1, SkipLoop("x", "input_offset", "input_byte_spans"))
    v.loop(MOD + ":transduce_with_spans", 2, CollectOutput())


# ------------------------------------------------------------------- lemmas
def lemmas(v):
    """Induction steps behind the ghost facts, and the clauses of C06 over the
    ownership definitions."""
    saved, v.axioms = v.axioms, []
    i, j, k, t, u = z3.Ints("i j k t u")
    BO = z3.Function("BO", INT, INT)
    c = z3.Function("c", INT, INT)
    N = z3.Int("N")
    inc = BO(j + 1) == BO(j) + pydv.utf8_len(c(j))
    v.lemma("offsets are strictly increasing: base", [i >= 0, j == i, inc, j < N], BO(i) < BO(j + 1))
    v.lemma("offsets are strictly increasing: step", [i >= 0, i < j, j < N, inc, BO(i) < BO(j)], BO(i) < BO(j + 1))
    v.lemma("a text has at least as many bytes as characters: step", [j >= 0, j < N, BO(j) >= j, inc], BO(j + 1) >= j + 1)
    lt = z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i < j, j <= N), BO(i) < BO(j)), patterns=[multi(BO(i), BO(j))])
    v.lemma("offsets are injective, so boundaries have one character index", [lt, i >= 0, i <= N, j >= 0, j <= N, BO(i) == BO(j)], i == j)
    b = z3.Int("b")
    v.lemma("a byte belongs to one character", [lt, i >= 0, i < N, j >= 0, j < N, BO(i) <= b, b < BO(i + 1), BO(j) <= b, b < BO(j + 1)], i == j)
    v.lemma("character order follows byte order", [lt, i >= 0, i <= N, j >= 0, j <= N, BO(i) <= BO(j)], i <= j)
    F, lab = z3.Function("F", INT, INT), z3.Function("lab", INT, INT)
    v.lemma("byte counts along the path never decrease: step", [k >= 0, k <= j, F(k) <= F(j), F(j + 1) == F(j) + z3.If(lab(j) == 0, 0, 1)], F(k) <= F(j + 1))

    class P:
        IO, OO = z3.Function("IO", INT, INT), z3.Function("OO", INT, INT)
        IL, OL = z3.Function("IL", INT, INT), z3.Function("OL", INT, INT)

    class T:

        def __init__(self, name):
            self.BO = z3.Function("BO_" + name, INT, INT)
            self.WS = z3.Function("WS_" + name, INT, BOOL)

    class Sp:
        P, Q = z3.Function("P", INT, INT), z3.Function("Q", INT, INT)
        M = z3.Int("M")

        @classmethod
        def prev(cls, n):
            return z3.If(n == 0, z3.IntVal(0), cls.Q(n - 1))

    class Own:
        D = z3.Function("D", INT, INT, BOOL)
        A, B = z3.Function("A", INT, INT, INT), z3.Function("B", INT, INT, INT)
        step = Owner.step

    own = Own()
    x, y = T("x"), T("y")
    counts = [P.IO(k + 1) == P.IO(k) + z3.If(P.IL(k) == 0, 0, 1), P.OO(k + 1) == P.OO(k) + z3.If(P.OL(k) == 0, 0, 1), P.IO(k) >= 0, P.OO(k) >= 0]

    def bytes_ordered(text, *tokens):
        """Byte positions of the spans of increasing token indices."""
        out = [tokens[0] >= 0, tokens[-1] < Sp.M]
        for a in tokens:
            out += [text.BO(Sp.P(a)) <= text.BO(Sp.Q(a)), text.BO(Sp.P(a)) >= 0, text.BO(Sp.prev(a)) <= text.BO(Sp.P(a)), text.BO(Sp.prev(a)) >= 0]
        for a, b2 in zip(tokens, tokens[1:]):
            out += [a < b2, text.BO(Sp.Q(a)) <= text.BO(Sp.P(b2)), text.BO(Sp.Q(a)) <= text.BO(Sp.prev(b2))]
        return out

    for side, owns, at, text in (("input", owns_input(P, x, y, Sp, own, k, t), P.IO, y), ("output", owns_output(P, x, y, Sp, own, k, t), P.OO, x)):
        step_t = own.step(k, t, owns, at(k))
        k0 = z3.Int("k0")
        before = z3.Implies(own.D(k, t), z3.And(0 <= own.A(k, t), own.A(k, t) < own.B(k, t), own.B(k, t) <= at(k)))
        lab = P.IL if side == "input" else P.OL
        v.lemma("%s: an owned range is not empty and lies before the arc: step" % side, counts + [step_t, before],
                z3.Implies(own.D(k + 1, t), z3.And(0 <= own.A(k + 1, t), own.A(k + 1, t) < own.B(k + 1, t), own.B(k + 1, t) <= at(k + 1))))
        v.lemma("%s: an owned byte enters its token's range" % side, counts + [step_t, before, owns],
                z3.And(own.D(k + 1, t), own.A(k + 1, t) <= at(k), at(k) < own.B(k + 1, t)))
        held = z3.And(own.D(k, t), own.A(k, t) <= at(k0), at(k0) < own.B(k, t))
        v.lemma("%s: an owned byte stays in its token's range: step" % side, counts + [step_t, before, held, at(k0) < at(k)],
                z3.And(own.D(k + 1, t), own.A(k + 1, t) <= at(k0), at(k0) < own.B(k + 1, t)))
        first = z3.Implies(own.D(k, t), z3.Exists([k0], z3.And(k0 >= 0, k0 < k, own.A(k, t) == at(k0))))
        v.lemma("%s: a range starts at an owned byte: step" % side, [step_t, first, k >= 0],
                z3.Implies(own.D(k + 1, t), z3.Exists([k0], z3.And(k0 >= 0, k0 < k + 1, own.A(k + 1, t) == at(k0)))))

    # input ranges of different tokens are ordered and disjoint
    oin = {w: owns_input(P, x, y, Sp, own, k, w) for w in (t, u)}
    steps = [own.step(k, w, oin[w], P.IO(k)) for w in (t, u)]
    sp2 = bytes_ordered(y, t, u)
    entered = z3.Implies(own.D(k, u), y.BO(Sp.P(u)) <= P.OO(k))
    before = [z3.Implies(own.D(k, w), z3.And(0 <= own.A(k, w), own.A(k, w) < own.B(k, w), own.B(k, w) <= P.IO(k))) for w in (t, u)]
    disjoint = z3.Implies(z3.And(own.D(k, t), own.D(k, u)), own.B(k, t) <= own.A(k, u))
    v.lemma("input: a token that owns input has been entered: step", counts + steps + sp2 + [entered],
            z3.Implies(own.D(k + 1, u), y.BO(Sp.P(u)) <= P.OO(k + 1)))
    v.lemma("input: one arc belongs to one token", counts + steps + sp2, z3.Not(z3.And(oin[t], oin[u])))
    v.lemma("input: ranges of two tokens are ordered and disjoint: step", counts + steps + sp2 + before + [entered, disjoint],
            z3.Implies(z3.And(own.D(k + 1, t), own.D(k + 1, u)), own.B(k + 1, t) <= own.A(k + 1, u)))
    oout = {w: owns_output(P, x, y, Sp, own, k, w) for w in (t, u)}
    nonempty = [x.BO(Sp.P(w)) < x.BO(Sp.Q(w)) for w in (t, u)]
    nxt = [x.BO(Sp.P(t + 1)) >= x.BO(Sp.Q(t)), x.BO(Sp.Q(t + 1)) <= x.BO(Sp.Q(u)), x.BO(Sp.P(t + 1)) <= x.BO(Sp.P(u))]
    v.lemma("output: one arc belongs to one token", counts + bytes_ordered(x, t, u) + nonempty + nxt, z3.Not(z3.And(oout[t], oout[u])))

    # the clauses of C06 about what belongs to which token
    Sy, Ey, Sx, Ex = y.BO(Sp.P(t)), y.BO(Sp.Q(t)), x.BO(Sp.P(t)), x.BO(Sp.Q(t))
    il, ol = P.IL(k) != 0, P.OL(k) != 0
    io, oo = P.IO(k), P.OO(k)
    v.lemma("input consumed while the path is inside a token belongs to it", [il, Sy < oo, oo < Ey, z3.Or(ol, z3.Not(x.WS(io)), own.D(k, t))], oin[t])
    v.lemma("input consumed with the first output of a token belongs to it", [il, ol, Sy == oo, oo < Ey], oin[t])
    v.lemma("input deleted between tokens belongs to none", [z3.Not(ol), z3.Or(oo <= Sy, Ey <= oo)], z3.Not(oin[t]))
    v.lemma("whitespace deleted before a token owns anything is not its input", [z3.Not(ol), x.WS(io), z3.Not(own.D(k, t))], z3.Not(oin[t]))
    v.lemma("output emitted while the path is inside a token belongs to it", [ol, Sx < io, io < Ex], oout[t])
    v.lemma("output emitted with the first input of a token belongs to it", [il, ol, Sx == io, io < Ex], oout[t])
    v.lemma("whitespace emitted between tokens belongs to none", [z3.Not(il), ol, y.WS(oo), z3.Or(io <= Sx, Ex <= io), z3.Or(t > 0, io != Sx)], z3.Not(oout[t]))
    v.lemma("no arc without output owns output", [z3.Not(ol)], z3.Not(oout[t]))
    v.lemma("no arc without input owns input", [z3.Not(il)], z3.Not(oin[t]))
    v.axioms = saved
