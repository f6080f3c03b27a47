"""Contracts of tn.processor.Processor: n-best candidates and normalize.

Pair (i, j): the j-th verbalization of the i-th tag.  COST(i, j) is its path
cost (tagger weight plus verbalizer weight above the tag's best one).  Keys are
(COST, i, j), ordered lexicographically.  The result must be the outputs of all
pairs in key order with repetitions removed, cut at n; that determines it
uniquely, so it is the same for every n up to the cut."""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, REAL, Contract, Loop, Method, Obj, Sym, zint
from contracts.models import Seq, index_in, multi
from contracts.streams import TextId, fresh_set, local_of, real_module, set_arrays

MOD = "tn.processor"
PROC = MOD + ":Processor"


class World:
    """Ghost: the two streams of one input."""

    def __init__(self, I):
        f = I.ctx.fresh_fn
        self.input = I.ctx.fresh("input", INT)
        self.TAG, self.TW, self.HAST = f("TAG", INT, INT), f("TW", INT, REAL), f("HAST", INT, BOOL)
        self.REO = f("REORDER", INT, INT)
        self.VT, self.VW, self.VH = f("VT", INT, INT, INT), f("VW", INT, INT, REAL), f("VH", INT, INT, BOOL)
        self.OUT, self.COST, self.VALID = f("OUT", INT, INT, INT), f("COST", INT, INT, REAL), f("VALID", INT, INT, BOOL)
        i, j, k, r = z3.Ints("i j k r")
        A = I.ctx.assume
        HAST, TW, VH, VW, R = self.HAST, self.TW, self.VH, self.VW, self.R
        # the contract of the streams (lemmas of contracts/streams.py)
        A(z3.ForAll([i, j], z3.Implies(z3.And(i >= 0, i <= j, HAST(j)), z3.And(HAST(i), TW(i) <= TW(j))), patterns=[multi(HAST(i), HAST(j))]))
        A(z3.ForAll([r, j, k], z3.Implies(z3.And(j >= 0, j <= k, VH(r, k)), z3.And(VH(r, j), VW(r, j) <= VW(r, k))), patterns=[multi(VH(r, j), VH(r, k))]))
        # definitions
        A(z3.ForAll([i, j], z3.And(self.OUT(i, j) == self.VT(R(i), j), self.COST(i, j) == TW(i) + VW(R(i), j) - VW(R(i), 0),
                                   self.VALID(i, j) == z3.And(i >= 0, j >= 0, HAST(i), VH(R(i), j)), z3.Implies(VH(R(i), j), z3.Or(VH(R(i), 0), j < 0))),
                    patterns=[self.COST(i, j), self.VALID(i, j)]))

    def R(self, i):
        return self.REO(self.TAG(i))

    def lt(self, p, q):
        (i, j), (k, m) = p, q
        a, b = self.COST(i, j), self.COST(k, m)
        return z3.Or(a < b, z3.And(a == b, z3.Or(i < k, z3.And(i == k, j < m))))

    def le(self, p, q):
        return z3.Or(self.lt(p, q), z3.And(p[0] == q[0], p[1] == q[1]))

    def candidate_attrs(self, i, j):
        return {
            "tagged": TextId(self.TAG(i)),
            "output": TextId(self.OUT(i, j)),
            "tagger_weight": self.TW(i),
            "verbalizer_weight": self.VW(self.R(i), j),
            "best_verbalizer_weight": self.VW(self.R(i), 0),
            "tagger_rank": i,
            "verbalizer_rank": j,
        }

    def candidate(self, I, i, j):
        """The candidate object of a pair."""
        c = I.ctx
        c.assume(self.COST(i, j) == self.COST(i, j))
        return I.instantiate(real_module()._NormalizationCandidate, [], self.candidate_attrs(i, j))

    def is_candidate(self, I, obj, i, j):
        """Formula: the object describes pair (i, j)."""
        if not isinstance(obj, Obj) or obj.cls is not real_module()._NormalizationCandidate:
            return z3.BoolVal(False)
        parts = [self.COST(i, j) == self.COST(i, j)]
        for field, want in self.candidate_attrs(i, j).items():
            if field not in obj.attrs:
                return z3.BoolVal(False)
            parts.append(pydv.zbool(I.eq(obj.attrs[field], want)))
        return z3.And(*parts)


def world(I):
    return I.globals_ghost["world"]


class Input(TextId):
    """The text to normalize."""

    def __init__(self, term, empty):
        super().__init__(term)
        self.empty = empty

    def py_truth(self, I):
        return z3.Not(self.empty)

    def py_len(self, I):
        n = I.globals_ghost.setdefault("input_length", I.ctx.fresh("input_length", INT))
        I.ctx.assume(z3.And(n >= 0, (n == 0) == self.empty))
        return n

    def py_eq(self, I, other):
        if isinstance(other, str) and other == "":
            return self.empty
        return TextId.py_eq(self, I, other)


class Graph(Sym):
    frozen = True

    def __init__(self, kind, text=None):
        super().__init__()
        self.kind, self.text = kind, text

    def py_binop(self, I, op, a, b):
        if type(op).__name__ == "MatMult" and isinstance(a, Graph) and isinstance(b, Graph) and a.kind == "acceptor" and b.kind in ("tagger", "verbalizer"):
            I.v.used_models.add("pynini composition @")
            return I.sym(Graph("%s of text" % b.kind, a.text))
        raise pydv.Unsupported("operator on an automaton")


class Escaped(Sym):
    frozen = True

    def __init__(self, text):
        super().__init__()
        self.text = text


def m_escape(I, args, kwargs):
    if not isinstance(args[0], TextId):
        raise pydv.Unsupported("escape of %r" % (args[0],))
    return I.sym(Escaped(args[0]))


def m_accep(I, args, kwargs):
    if len(args) != 1 or kwargs or not isinstance(args[0], Escaped):
        raise pydv.Unsupported("accep of an unescaped text")
    return I.sym(Graph("acceptor", args[0].text))


class Stream(Sym):
    """A _UniqueOutputPathStream by its contract: the texts of one sequence."""

    def __init__(self, kind, text, pos):
        super().__init__(pos=pos)
        self.kind, self.text = kind, text

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name not in ("peek", "pop") or args or kwargs:
            raise pydv.Unsupported("stream.%s" % name)
        I.v.used_contracts.add("tn.processor:_UniqueOutputPathStream.%s" % name)
        w, pos = world(I), zint(self.get("pos"))
        if self.kind == "tagger":
            more, text, weight = w.HAST(pos), w.TAG(pos), w.TW(pos)
        else:
            r = self.text
            more, text, weight = w.VH(r, pos), w.VT(r, pos), w.VW(r, pos)
        if not I.ctx.decide(more):
            return None
        if name == "pop":
            self.set(I, "pos", pos + 1)
        return I.instantiate(real_module()._WeightedOutput, [TextId(text), weight, pos], {})


class StreamClass(Contract):
    """Construction of a stream (verified as _UniqueOutputPathStream.__init__)."""

    target = MOD + ":_UniqueOutputPathStream"

    def apply(self, I, args, kwargs):
        g = args[0] if args else kwargs.get("lattice")
        w = world(I)
        if not isinstance(g, Graph) or not g.kind.endswith("of text"):
            raise pydv.Unsupported("a stream over an unknown automaton")
        if g.kind.startswith("tagger"):
            I.ctx.prove("the tagger stream reads the given text", g.text.term == w.input)
            return I.sym(Stream("tagger", None, z3.IntVal(0)))
        return I.sym(Stream("verbalizer", g.text.term, z3.IntVal(0)))


class Parser(Sym):
    frozen = True

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "reorder" and len(args) == 1 and isinstance(args[0], TextId):
            I.v.used_contracts.add("tn.token_parser:TokenParser.reorder")
            if I.ctx.choose("the tag is malformed"):
                raise pydv.PyRaise(pydv.ExcVal(parse_error(), ("malformed",)))
            return TextId(world(I).REO(args[0].term))
        raise pydv.Unsupported("parser.%s" % name)


def parse_error():
    from tn.token_parser import TokenParseError
    return TokenParseError


class TokenParserOf(Contract):
    target = PROC + ".token_parser"

    def apply(self, I, args, kwargs):
        return I.sym(Parser())


# ----------------------------------------------------------------- frontier
ACT0 = z3.K(INT, z3.BoolVal(False))
PTR0 = z3.K(INT, z3.IntVal(0))


class Heap(Sym):
    """The frontier: at most one entry per tag i, for pair (i, ptr[i])."""

    def __init__(self, act, ptr):
        super().__init__(act=act, ptr=ptr)
        self.cached = None

    def minimum(self, I):
        """The tag of the least entry, or None when the heap is empty."""
        act, ptr = self.get("act"), self.get("ptr")
        if self.cached is not None and self.cached[0] is act and self.cached[1] is ptr:
            return self.cached[2]
        i = z3.Int("i")
        w = world(I)
        if I.ctx.choose("the frontier is not empty"):
            m = I.ctx.fresh("first", INT)
            I.ctx.assume(z3.Select(act, m))
            I.ctx.assume(z3.ForAll([i], z3.Implies(z3.Select(act, i), w.le((m, z3.Select(ptr, m)), (i, z3.Select(ptr, i)))), patterns=[z3.Select(act, i)]))
        else:
            m = None
            I.ctx.assume(z3.ForAll([i], z3.Not(z3.Select(act, i)), patterns=[z3.Select(act, i)]))
        I.ctx.feasible_or_end()
        self.cached = (act, ptr, m)
        return m

    def py_truth(self, I):
        return self.minimum(I) is not None

    def py_len(self, I):
        n = I.ctx.fresh("entries", INT)
        I.ctx.assume(n >= 1 if self.py_truth(I) else n == 0)
        return n

    def entry(self, I, i, shared):
        w = world(I)
        j = z3.Select(self.get("ptr"), i)
        stream = I.sym(Stream("verbalizer", w.R(i), j + 1))
        stream.frozen = shared
        return (w.COST(i, j), i, j, I.ctx.fresh("serial", INT), w.candidate(I, i, j), stream)

    def first(self, I, shared):
        m = self.minimum(I)
        if m is None:
            raise pydv.PyRaise(pydv.ExcVal(IndexError, ("index out of range",)))
        return m, self.entry(I, m, shared)

    def py_getitem(self, I, index):
        if index != 0:
            raise pydv.Unsupported("frontier[%r]" % (index,))
        return self.first(I, True)[1]

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        raise pydv.Unsupported("frontier.%s" % name)


def heap_arrays(value):
    if isinstance(value, Heap):
        return value.get("act"), value.get("ptr")
    if isinstance(value, pydv.PList) and not value.items:
        return ACT0, PTR0
    raise pydv.Unsupported("the frontier is expected to be a heap")


def m_heappush(I, args, kwargs):
    heap, x = args
    w = world(I)
    if not isinstance(heap, Heap) or not (isinstance(x, tuple) and len(x) == 6):
        raise pydv.Unsupported("heappush of %r" % (x,))
    cost, i, j, _, candidate, stream = x
    i, j = zint(i), zint(j)
    act, ptr = heap.get("act"), heap.get("ptr")
    I.ctx.prove("pushed entry: its key is (path cost, tag rank, verbalization rank)", z3.And(pydv.zreal(cost) == w.COST(i, j), w.VALID(i, j)))
    I.ctx.prove("pushed entry: the candidate is that pair", w.is_candidate(I, candidate, i, j))
    if not isinstance(stream, Stream) or stream.kind != "verbalizer":
        raise pydv.Unsupported("pushed entry without its stream")
    I.ctx.prove("pushed entry: its stream continues after the pair", z3.And(stream.text == w.R(i), zint(stream.get("pos")) == j + 1))
    I.ctx.prove("pushed entry: the only one of its tag, and the next pair of the tag", z3.And(z3.Not(z3.Select(act, i)), z3.Select(ptr, i) == j))
    I.retire(stream)
    heap.set(I, "act", z3.Store(act, i, z3.BoolVal(True)))
    return None


def m_heappop(I, args, kwargs):
    heap = args[0]
    if not isinstance(heap, Heap):
        raise pydv.Unsupported("heappop of %r" % (heap,))
    i, x = heap.first(I, False)
    ptr = heap.get("ptr")
    heap.set(I, "act", z3.Store(heap.get("act"), i, z3.BoolVal(False)))
    heap.set(I, "ptr", z3.Store(ptr, i, z3.Select(ptr, i) + 1))
    return x


class Candidates(Seq):
    """Candidates: entry m is pair (ci[m], cj[m]); idx[t]: last entry with output t."""

    def __init__(self, w, length, ci, cj, idx):
        super().__init__(length, lambda I, m: w.candidate(I, z3.Select(self.get("ci"), m), z3.Select(self.get("cj"), m)), None, "candidates")
        self.w = w
        self.attrs.update(ci=ci, cj=cj, idx=idx)

    def py_method(self, I, name, args, kwargs):
        if name == "append":
            x, w, n = args[0], self.w, zint(self.get("length"))
            if not isinstance(x, Obj) or not {"tagger_rank", "verbalizer_rank"} <= set(x.attrs):
                raise pydv.Unsupported("append of %r" % (x,))
            i, j = zint(x.attrs["tagger_rank"]), zint(x.attrs["verbalizer_rank"])
            I.ctx.prove("the candidate describes its pair", w.is_candidate(I, x, i, j))
            self.set(I, "ci", z3.Store(self.get("ci"), n, i))
            self.set(I, "cj", z3.Store(self.get("cj"), n, j))
            self.set(I, "idx", z3.Store(self.get("idx"), w.OUT(i, j), n))
            self.set(I, "length", n + 1)
            return None
        return Seq.py_method(self, I, name, args, kwargs)


def fresh_candidates(I):
    f = I.ctx.fresh
    n = f("c", INT)
    I.ctx.assume(n >= 0)
    A = z3.ArraySort(INT, INT)
    return I.sym(Candidates(world(I), n, f("ci", A), f("cj", A), f("idx", A)))


class CView:

    def __init__(self, w, value):
        self.w = w
        if isinstance(value, Candidates):
            self.c, self.ci, self.cj, self.idx = (value.get(f) for f in ("length", "ci", "cj", "idx"))
        elif isinstance(value, pydv.PList) and not value.items:
            self.c, self.ci, self.cj, self.idx = z3.IntVal(0), PTR0, PTR0, z3.K(INT, z3.IntVal(-1))
        else:
            raise pydv.Unsupported("a list of candidates is expected")

    def pair(self, m):
        return z3.Select(self.ci, m), z3.Select(self.cj, m)

    def out(self, m):
        return self.w.OUT(*self.pair(m))

    def index(self, t):
        return z3.Select(self.idx, t)

    def listed(self, t):
        m = self.index(t)
        return z3.And(m >= 0, m < self.c, self.out(m) == t)

    def ordered(self):
        m, k = z3.Ints("m k")
        w = self.w
        return z3.ForAll([m, k], z3.Implies(z3.And(m >= 0, m < k, k < self.c), w.lt(self.pair(m), self.pair(k))),
                         patterns=[multi(z3.Select(self.ci, m), z3.Select(self.ci, k))])

    def distinct(self):
        m = z3.Int("m")
        return z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < self.c), z3.And(self.index(self.out(m)) == m, self.w.VALID(*self.pair(m)))), patterns=[z3.Select(self.ci, m)])


class MainLoop(Loop):
    havoc = {
        "frontier": lambda L: L.I.sym(Heap(L.I.ctx.fresh("act", z3.ArraySort(INT, BOOL)), L.I.ctx.fresh("ptr", z3.ArraySort(INT, INT)))),
        "candidates": lambda L: fresh_candidates(L.I),
        "seen_outputs": lambda L: fresh_set(L.I, "seen"),
    }

    def enter(self, L):
        return {"stream": local_of(L, Stream)}

    def modifies(self, L):
        yield L.stream, "pos", "int"

    def inv(self, L):
        w = world(L.I)
        a = zint(L["activated"])
        act, ptr = heap_arrays(L["frontier"])
        C = CView(w, L["candidates"])
        seen, _ = set_arrays(L["seen_outputs"])
        i, j, k, m, t = z3.Ints("i j k m t")
        P = lambda i: z3.Select(ptr, i)
        processed = lambda i, j: z3.And(i >= 0, i < a, j >= 0, j < P(i))
        yield "tags activated so far", z3.And(zint(L.stream.get("pos")) == a, a >= 0, z3.Or(a == 0, w.HAST(a - 1)))
        yield "tags not activated have no entry", z3.ForAll([i], z3.Implies(z3.Or(i < 0, i >= a), z3.And(z3.Not(z3.Select(act, i)), P(i) == 0)), patterns=[P(i)])
        yield "activated tags have their next pair in the frontier", z3.ForAll(
            [i], z3.Implies(z3.And(i >= 0, i < a), z3.And(P(i) >= 0, z3.Select(act, i) == w.VH(w.R(i), P(i)))), patterns=[P(i)])
        yield "emitted pairs are pairs", z3.ForAll([i, j], z3.Implies(processed(i, j), w.VALID(i, j)), patterns=[w.COST(i, j)])
        yield "emitted pairs come before all others", z3.ForAll(
            [i, j, k, m], z3.Implies(z3.And(processed(i, j), w.VALID(k, m), z3.Not(processed(k, m))), w.lt((i, j), (k, m))),
            patterns=[multi(w.COST(i, j), w.COST(k, m))])
        ci, cj = z3.Select(C.ci, m), z3.Select(C.cj, m)
        yield "candidates were emitted", z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < C.c), processed(ci, cj)), patterns=[ci])
        yield "candidates are in key order", C.ordered()
        yield "candidates are distinct", C.distinct()
        yield "seen outputs are those of the candidates", z3.ForAll([t], z3.Select(seen, t) == C.listed(t), patterns=[z3.Select(seen, t)])
        yield "every emitted pair has its output seen", z3.ForAll([i, j], z3.Implies(processed(i, j), z3.Select(seen, w.OUT(i, j))), patterns=[w.OUT(i, j)])
        yield "no emitted pair comes before the candidate with its output", z3.ForAll(
            [i, j], z3.Implies(processed(i, j), z3.Not(w.lt((i, j), C.pair(C.index(w.OUT(i, j)))))), patterns=[w.COST(i, j)])
        yield "at most n candidates", z3.And(C.c >= 0, C.c <= zint(L["nbest"]))


def processor(I):
    obj = I.new_obj(real_module().Processor, label="self")
    obj.attrs.update({"tagger": I.sym(Graph("tagger")), "verbalizer": I.sym(Graph("verbalizer"))})
    return obj


def arguments(args, kwargs, names, defaults):
    v = dict(defaults)
    v.update(zip(names, args))
    v.update(kwargs)
    return v


class NBest(Contract):
    target = PROC + "._normalization_candidates"

    def setup(self, I):
        w = I.globals_ghost["world"] = World(I)
        n = I.ctx.fresh("n", INT)
        I.ctx.assume(n >= 1)
        return [processor(I), Input(w.input, z3.BoolVal(False)), n], {}

    def parts(self, args, kwargs):
        v = arguments(args, kwargs, ["self", "input", "nbest"], {})
        return v["input"], v["nbest"]

    def pre(self, I, args, kwargs):
        x, n = self.parts(args, kwargs)
        w = world(I)
        yield "the text is the given one and not empty", z3.And(x.term == w.input, z3.Not(x.empty)) if isinstance(x, Input) else z3.BoolVal(False)
        yield "n is positive", zint(n) >= 1

    def result(self, I, args, kwargs):
        I.globals_ghost["candidates"] = fresh_candidates(I)
        return I.globals_ghost["candidates"]

    def post(self, I, old, args, kwargs, result):
        w = world(I)
        _, n = self.parts(args, kwargs)
        C = CView(w, result)
        i, j, m = z3.Ints("i j m")
        yield "between 1 and n candidates", z3.And(C.c >= 1, C.c <= zint(n))
        yield "candidates are pairs with pairwise different outputs", C.distinct()
        yield "candidates are in strictly increasing key order", C.ordered()
        yield "no cheaper pair is skipped", z3.ForAll(
            [i, j, m], z3.Implies(z3.And(w.VALID(i, j), m >= 0, m < C.c, w.le((i, j), C.pair(m))),
                                  z3.And(C.listed(w.OUT(i, j)), C.index(w.OUT(i, j)) <= m, w.le(C.pair(C.index(w.OUT(i, j))), (i, j)))), patterns=[multi(w.COST(i, j), z3.Select(C.ci, m))])
        yield "a short list is complete", z3.ForAll([i, j], z3.Implies(z3.And(w.VALID(i, j), C.c < zint(n)), C.listed(w.OUT(i, j))), patterns=[w.COST(i, j)])

    @staticmethod
    def cut(w, C, n):
        """The list is cut at n and nowhere else."""
        i, j = z3.Ints("i j")
        return z3.And(C.c >= 1, C.c <= n, z3.ForAll([i, j], z3.Implies(z3.And(w.VALID(i, j), C.c < n), C.listed(w.OUT(i, j))), patterns=[w.COST(i, j)]))

    def none(self, I, old, args, kwargs, exc):
        w = world(I)
        i, j = z3.Ints("i j")
        yield "no pair exists", z3.ForAll([i, j], z3.Not(w.VALID(i, j)), patterns=[w.COST(i, j)])

    def malformed(self, I, old, args, kwargs, exc):
        return ()

    @property
    def raises(self):
        return {parse_error(): NBest.malformed, RuntimeError: NBest.none}


class Other(Sym):
    """A value that is no integer."""

    frozen = True

    def py_isinstance(self, I, c):
        return c is object

    def py_compare(self, I, op, a, b):
        raise pydv.PyRaise(pydv.ExcVal(TypeError, ("not ordered",)))


class Validate(Contract):
    target = PROC + "._validate_nbest"

    def setup(self, I):
        for kind, value in (("int", lambda: I.ctx.fresh("n", INT)), ("bool", lambda: I.ctx.fresh("flag", BOOL)), ("float", lambda: I.ctx.fresh("x", REAL)),
                            ("str", lambda: pydv.S(I.ctx.fresh("s", pydv.STR))), ("none", lambda: None)):
            if I.ctx.choose("n is a " + kind):
                return [value()], {}
        return [I.sym(Other())], {}

    def good(self, x):
        if pydv.is_int(x):
            return zint(x) >= 1
        return z3.BoolVal(False)

    def post(self, I, old, args, kwargs, result):
        yield "only a positive integer passes", self.good(args[0])

    def refused(self, I, old, args, kwargs, exc):
        yield "a positive integer is not refused", z3.Not(self.good(args[0]))

    raises = {ValueError: refused}


class Outputs(Seq):
    pass


class Normalize(Contract):
    target = PROC + ".normalize"
    min_returns = 3

    def setup(self, I):
        w = I.globals_ghost["world"] = World(I)
        empty = I.ctx.fresh("empty", BOOL)
        kind = I.ctx.choose("n is given")
        args = [processor(I), Input(w.input, empty)]
        return args, ({"nbest": I.ctx.fresh("n", INT)} if kind else {})

    def n(self, kwargs):
        return zint(kwargs.get("nbest", 1))

    def post(self, I, old, args, kwargs, result):
        w, n, x = world(I), self.n(kwargs), args[1]
        C = I.globals_ghost.get("candidates")
        yield "n is positive", n >= 1
        single = not isinstance(result, (Seq, pydv.PList, list, tuple))
        yield "a single text exactly for n = 1", z3.BoolVal(single) == (n == 1)
        if C is None:
            yield "only an empty text has no candidates", x.empty
            text = result if single else (result.items[0] if isinstance(result, pydv.PList) and len(result.items) == 1 else None)
            yield "the output of the empty text is empty", z3.BoolVal(isinstance(text, str) and text == "")
            return
        V = CView(w, C)
        yield "a text that is not empty is normalized", z3.Not(x.empty)
        yield "the candidates are the first n", NBest.cut(w, V, n)
        if single:
            yield "the first output", pydv.zbool(I.eq(result, TextId(V.out(z3.IntVal(0))))) if isinstance(result, TextId) else z3.BoolVal(False)
        else:
            m = I.ctx.fresh("m", INT)
            I.ctx.assume(z3.And(m >= 0, m < V.c))
            if not isinstance(result, Seq):
                raise pydv.Unsupported("normalize returns %r" % (result,))
            got = result.elem(I, m)
            yield "every candidate's output, in order", z3.And(zint(result.get("length")) == V.c, got.term == V.out(m) if isinstance(got, TextId) else z3.BoolVal(False))

    def invalid(self, I, old, args, kwargs, exc):
        yield "n is not positive", self.n(kwargs) < 1

    def none(self, I, old, args, kwargs, exc):
        yield "only for a text without a path", z3.Not(args[1].empty)

    def malformed(self, I, old, args, kwargs, exc):
        yield "only for a text", z3.Not(args[1].empty)

    @property
    def raises(self):
        return {ValueError: Normalize.invalid, RuntimeError: Normalize.none, parse_error(): Normalize.malformed}


def lemmas(v):
    """What the postcondition of the candidates says about two calls."""
    COST, OUT, VALID = z3.Function("COST", INT, INT, REAL), z3.Function("OUT", INT, INT, INT), z3.Function("VALID", INT, INT, BOOL)
    i, j, m, k, t = z3.Ints("i j m k t")

    class W:
        pass

    w = W()
    w.COST, w.OUT, w.VALID = COST, OUT, VALID
    w.lt = lambda p, q: World.lt(w, p, q)
    w.le = lambda p, q: World.le(w, p, q)

    def listing(name):
        A = z3.ArraySort(INT, INT)
        C = CView.__new__(CView)
        C.w = w
        C.c, C.n = z3.Ints("c_%s n_%s" % (name, name))
        C.ci, C.cj, C.idx = z3.Const("ci_" + name, A), z3.Const("cj_" + name, A), z3.Const("idx_" + name, A)
        facts = [
            C.c >= 1, C.c <= C.n, C.distinct(), C.ordered(),
            z3.ForAll([i, j, m], z3.Implies(z3.And(VALID(i, j), m >= 0, m < C.c, w.le((i, j), C.pair(m))),
                                            z3.And(C.listed(OUT(i, j)), C.index(OUT(i, j)) <= m, w.le(C.pair(C.index(OUT(i, j))), (i, j)))), patterns=[multi(COST(i, j), z3.Select(C.ci, m))]),
            z3.ForAll([i, j], z3.Implies(z3.And(VALID(i, j), C.c < C.n), C.listed(OUT(i, j))), patterns=[COST(i, j)]),
        ]
        return C, facts

    A, fa = listing("a")
    B, fb = listing("b")
    a = z3.Int("at")
    same = lambda x: z3.And(z3.Select(A.ci, x) == z3.Select(B.ci, x), z3.Select(A.cj, x) == z3.Select(B.cj, x))
    before = z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < a), same(m)), patterns=[z3.Select(A.ci, m)])
    before_b = z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < a), same(m)), patterns=[z3.Select(B.ci, m)])
    keys = [COST(*A.pair(a)) == COST(*A.pair(a)), COST(*B.pair(a)) == COST(*B.pair(a))]
    v.lemma("two lists of one text agree wherever both have an entry (step)", fa + fb + [A.n <= B.n, a >= 0, a < A.c, a < B.c, before, before_b] + keys, same(a))
    first = z3.IntVal(0)
    v.lemma("a longer list has at least as many entries", fa + fb + [A.n <= B.n, B.c < A.c,
            z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < B.c), same(m)), patterns=[z3.Select(A.ci, m)]), COST(*A.pair(B.c)) == COST(*A.pair(B.c)), z3.Select(B.ci, A.index(A.out(B.c))) == z3.Select(B.ci, A.index(A.out(B.c))),
            z3.Select(B.ci, B.index(A.out(B.c))) == z3.Select(B.ci, B.index(A.out(B.c))), z3.Select(A.ci, B.index(A.out(B.c))) == z3.Select(A.ci, B.index(A.out(B.c)))], z3.BoolVal(False))
    v.lemma("the list is cut only at n", fa + fb + [A.n <= B.n, A.c < A.n, A.c < B.c,
            z3.ForAll([m], z3.Implies(z3.And(m >= 0, m < A.c), same(m)), patterns=[z3.Select(A.ci, m)]), COST(*B.pair(A.c)) == COST(*B.pair(A.c)),
            z3.Select(A.ci, A.index(B.out(A.c))) == z3.Select(A.ci, A.index(B.out(A.c))), z3.Select(B.ci, A.index(B.out(A.c))) == z3.Select(B.ci, A.index(B.out(A.c)))], z3.BoolVal(False))
    v.lemma("the first candidate is the same for every n", fa + fb + [COST(*A.pair(first)) == COST(*A.pair(first)), COST(*B.pair(first)) == COST(*B.pair(first))], same(first))
    v.lemma("costs do not decrease", fa + [a >= 0, k > a, k < A.c, z3.Select(A.ci, a) == z3.Select(A.ci, a), z3.Select(A.ci, k) == z3.Select(A.ci, k)], COST(*A.pair(a)) <= COST(*A.pair(k)))
    v.lemma("outputs differ", fa + [a >= 0, k > a, k < A.c, z3.Select(A.ci, a) == z3.Select(A.ci, a), z3.Select(A.ci, k) == z3.Select(A.ci, k)], A.out(a) != A.out(k))


CONTRACTS = {"_normalization_candidates": NBest, "_validate_nbest": Validate, "normalize": Normalize}


def map_model(I, frame, node, source):
    """[expression for x in sequence]: evaluated at an arbitrary position."""
    if not isinstance(source, Seq) or len(node.generators) != 1 or node.generators[0].ifs or not hasattr(node, "elt"):
        raise pydv.Unsupported("comprehension over a symbolic sequence")
    target, func = node.generators[0].target, frame.func

    def elem(I, i):
        I.frames.append(pydv.Frame(func, {}, frame))
        try:
            I.assign(target, source.elem(I, i))
            return I.eval(node.elt)
        finally:
            I.frames.pop()

    # evaluated at an arbitrary position first: an exception there ends the
    # comprehension, so afterwards no position raises
    i = I.ctx.fresh("position", INT)
    if I.ctx.decide(source.py_truth(I)):
        I.ctx.assume(z3.And(i >= 0, i < zint(source.get("length"))))
        elem(I, i)

    def built(I, i):
        try:
            return elem(I, i)
        except pydv.PyRaise:
            I.ctx.assume(z3.BoolVal(False))
            I.ctx.feasible_or_end()
            raise pydv.Unsupported("unreachable")

    return I.sym(Seq(source.get("length"), built, None, "map"))


def install(v):
    import heapq
    import pynini
    v.model(pynini.escape, m_escape, "pynini.escape")
    v.model(pynini.accep, m_accep, "pynini.accep")
    v.model(heapq.heappush, m_heappush, "heapq.heappush")
    v.model(heapq.heappop, m_heappop, "heapq.heappop")
    v.comprehension_model = map_model
    for c in CONTRACTS.values():
        v.contract(c())
    v.contract(StreamClass())
    v.contract(TokenParserOf())
    v.loop(PROC + "._normalization_candidates", 0, MainLoop())


def prove(v, names=None):
    install(v)
    for name, c in CONTRACTS.items():
        if not names or name in names:
            v.verify(c())
    if not names or "lemmas" in names:
        lemmas(v)
