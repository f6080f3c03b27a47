"""Contracts of tn.processor._UniqueOutputPathStream.

The automaton given to a stream is a weighted set of output texts: IN(t) says
that t is an output and W(t) is its least path weight.  The trusted model of
OpenFst's ``shortestpath(nshortest=L, unique=True)`` enumerates the L best
distinct outputs in non-decreasing weight (all of them when there are fewer).
The class must turn this into one fixed sequence: every text once, cheapest
first, whatever the growing L does and however calls of peek and pop mix."""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, REAL, Contract, Loop, Method, Obj, Sym, zint
from contracts.models import multi

MOD = "tn.processor"
CLS = MOD + ":_UniqueOutputPathStream"


def real_module():
    import tn.processor
    return tn.processor


class TextId(Sym):
    """A text of which only the identity matters."""

    frozen = True

    def __init__(self, term):
        super().__init__()
        self.term = term

    def py_eq(self, I, other):
        if isinstance(other, TextId):
            return self.term == other.term
        raise pydv.Unsupported("an output text compared with %r" % (other,))

    def py_isinstance(self, I, c):
        return issubclass(str, c)

    def py_getattr(self, I, name):
        raise pydv.Unsupported("str.%s of an output text" % name)


def text_term(value):
    return value.term if isinstance(value, TextId) else None


class TextSet(Sym):

    def __init__(self, dom, card):
        super().__init__(dom=dom, card=card)

    def py_contains(self, I, item):
        if not isinstance(item, TextId):
            raise pydv.Unsupported("membership of %r in a set of texts" % (item,))
        return z3.Select(self.get("dom"), item.term)

    def py_len(self, I):
        return self.get("card")

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "add" and isinstance(args[0], TextId):
            dom, t = self.get("dom"), args[0].term
            I.v.used_models.add("cardinality of a finite set")
            self.set(I, "card", self.get("card") + z3.If(z3.Select(dom, t), 0, 1))
            self.set(I, "dom", z3.Store(dom, t, z3.BoolVal(True)))
            return None
        raise pydv.Unsupported("set.%s of a set of texts" % name)


def set_arrays(value):
    """(domain, cardinality) of a set of texts."""
    if isinstance(value, TextSet):
        return value.get("dom"), value.get("card")
    if isinstance(value, pydv.PSet) and not value.items:
        return z3.K(INT, z3.BoolVal(False)), z3.IntVal(0)
    raise pydv.Unsupported("a set of texts is expected, not %r" % (value,))


def fresh_set(I, name):
    card = I.ctx.fresh(name + "_card", INT)
    I.ctx.assume(card >= 0)
    return I.sym(TextSet(I.ctx.fresh(name, z3.ArraySort(INT, BOOL)), card))


class Items(Sym):
    """The list of pending outputs: elements base .. base+length-1.

    ``where[t]`` is the position of the last append of text t (ghost)."""

    def __init__(self, base, length, text, weight, where):
        super().__init__(base=base, length=length, text=text, weight=weight, where=where)

    def py_len(self, I):
        return zint(self.get("length"))

    def py_truth(self, I):
        return zint(self.get("length")) > 0

    def py_getattr(self, I, name):
        return Method(self, name)

    def elem(self, I, m):
        return I.instantiate(real_module()._WeightedOutput, [TextId(z3.Select(self.get("text"), m)), z3.Select(self.get("weight"), m), -1], {})

    def py_getitem(self, I, index):
        if isinstance(index, slice):
            raise pydv.Unsupported("slice of the pending outputs")
        from contracts.models import index_in
        return self.elem(I, self.get("base") + index_in(I, index, self.get("length")))

    def py_method(self, I, name, args, kwargs):
        base, n = self.get("base"), self.get("length")
        if name == "append" and len(args) == 1:
            x = args[0]
            t, w = item_parts(x)
            self.set(I, "text", z3.Store(self.get("text"), base + n, t))
            self.set(I, "weight", z3.Store(self.get("weight"), base + n, w))
            self.set(I, "where", z3.Store(self.get("where"), t, base + n))
            self.set(I, "length", n + 1)
            return None
        if name == "pop" and list(args) == [0]:
            I.ctx.prove("pop(0) of a non-empty list", n > 0)
            x = self.elem(I, base)
            self.set(I, "base", base + 1)
            self.set(I, "length", n - 1)
            return x
        raise pydv.Unsupported("list.%s of the pending outputs" % name)


def item_parts(x):
    if not (isinstance(x, Obj) and x.cls is real_module()._WeightedOutput and isinstance(x.attrs.get("text"), TextId)):
        raise pydv.Unsupported("not a weighted output: %r" % (x,))
    return x.attrs["text"].term, pydv.zreal(x.attrs["weight"])


def items_arrays(value):
    if isinstance(value, Items):
        return tuple(value.get(f) for f in ("base", "length", "text", "weight", "where"))
    if isinstance(value, pydv.PList) and not value.items:
        return z3.IntVal(0), z3.IntVal(0), z3.K(INT, z3.IntVal(0)), z3.K(INT, z3.Q(0, 1)), z3.K(INT, z3.IntVal(-1))
    raise pydv.Unsupported("a list of weighted outputs is expected, not %r" % (value,))


def fresh_items(I, name="items"):
    f = I.ctx.fresh
    n, b = f(name + "_n", INT), f(name + "_b", INT)
    I.ctx.assume(z3.And(n >= 0, b >= 0))
    return I.sym(Items(b, n, f(name + "_t", z3.ArraySort(INT, INT)), f(name + "_w", z3.ArraySort(INT, REAL)), f(name + "_i", z3.ArraySort(INT, INT))))


class Language:
    """The outputs of one automaton with their least weights."""

    def __init__(self, I, name="L"):
        self.IN = I.ctx.fresh_fn("IN_" + name, INT, BOOL)
        self.W = I.ctx.fresh_fn("W_" + name, INT, REAL)


class Lattice(Sym):
    """An automaton; only a projected, epsilon-free copy may be searched."""

    def __init__(self, language, stage):
        super().__init__(stage=stage)
        self.language = language

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        I.v.used_models.add("pynini Fst.%s" % name)
        if name == "copy":
            return I.sym(Lattice(self.language, self.get("stage")))
        if name == "project" and list(args) == ["output"]:
            self.set(I, "stage", "projected")
            return self
        if name == "rmepsilon" and not args and not kwargs:
            self.set(I, "stage", "clean" if self.get("stage") in ("projected", "clean") else self.get("stage"))
            return self
        raise pydv.Unsupported("Fst.%s" % name)


class Best(Sym):
    """The result of shortestpath: texts T(0..K-1) in order."""

    def __init__(self, I, language, limit):
        super().__init__()
        ctx = I.ctx
        self.language = language
        self.K = ctx.fresh("K", INT)
        self.T, self.POS = ctx.fresh_fn("T", INT, INT), ctx.fresh_fn("POS", INT, INT)
        IN, W, T, POS, K = language.IN, language.W, self.T, self.POS, self.K
        k, j, t = z3.Ints("k j t")
        ctx.assume(z3.And(K >= 0, K <= limit))
        ctx.assume(z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < K), z3.And(IN(T(k)), POS(T(k)) == k)), patterns=[T(k)]))
        ctx.assume(z3.ForAll([j, k], z3.Implies(z3.And(j >= 0, j <= k, k < K), W(T(j)) <= W(T(k))), patterns=[multi(T(j), T(k))]))
        ctx.assume(z3.ForAll([t], z3.Implies(z3.And(IN(t), z3.Not(self.found(t))), K == limit), patterns=[IN(t)]))
        ctx.assume(z3.ForAll([t, k], z3.Implies(z3.And(IN(t), z3.Not(self.found(t)), k >= 0, k < K), W(T(k)) <= W(t)), patterns=[multi(IN(t), T(k))]))

    def found(self, t):
        return z3.And(self.POS(t) >= 0, self.POS(t) < self.K, self.T(self.POS(t)) == t)

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "paths" and not args:
            I.v.used_models.add("pynini Fst.paths")
            return I.sym(Paths(self))
        raise pydv.Unsupported("Fst.%s" % name)


class Paths(Sym):

    def __init__(self, best):
        super().__init__(pos=z3.IntVal(0))
        self.best = best

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        pos, best = self.get("pos"), self.best
        if name == "done":
            return pos >= best.K
        if name in ("ostring", "istring", "weight", "next"):
            I.ctx.prove("the path iterator is not at its end", pos < best.K)
        if name in ("ostring", "istring"):
            return TextId(best.T(pos))
        if name == "weight":
            return best.language.W(best.T(pos))
        if name == "next":
            self.set(I, "pos", pos + 1)
            return None
        raise pydv.Unsupported("path iterator.%s" % name)


def m_shortestpath(I, args, kwargs):
    names = dict(zip(["fst", "nshortest"], args))
    names.update(kwargs)
    lattice, limit, unique = names.pop("fst", None), names.pop("nshortest", 1), names.pop("unique", False)
    if names or not isinstance(lattice, Lattice):
        raise pydv.Unsupported("shortestpath with these arguments")
    I.ctx.prove("shortestpath searches distinct outputs of a projected, epsilon-free automaton",
                z3.And(z3.BoolVal(unique is True), z3.BoolVal(lattice.get("stage") == "clean")))
    I.ctx.prove("shortestpath is asked for at least one path", zint(limit) >= 1)
    return I.sym(Best(I, lattice.language, zint(limit)))


# ------------------------------------------------------------------ the class
class State:
    """The parts of a stream object."""

    def __init__(self, obj):
        self.obj = obj
        self.language = obj.attrs["_lattice"].language
        self.Y, self.card = set_arrays(obj.attrs["_yielded"])
        self.b, self.n, self.txt, self.wt, self.mi = items_arrays(obj.attrs["_items"])
        self.rank, self.limit = zint(obj.attrs["_next_rank"]), zint(obj.attrs["_limit"])
        self.exhausted = pydv.zbool(obj.attrs["_exhausted"])

    def member(self, t):
        m = z3.Select(self.mi, t)
        return z3.And(m >= self.b, m < self.b + self.n, z3.Select(self.txt, m) == t)

    def invariant(self):
        IN, W = self.language.IN, self.language.W
        Y, b, n = self.Y, self.b, self.n
        T = lambda m: z3.Select(self.txt, m)
        WT = lambda m: z3.Select(self.wt, m)
        m, j, t, u = z3.Ints("m j t u")
        inside = lambda m: z3.And(m >= b, m < b + n)
        yield "the searched automaton is a projected, epsilon-free copy", z3.BoolVal(self.obj.attrs["_lattice"].get("stage") == "clean")
        yield "counters", z3.And(self.limit >= 0, n >= 0, self.card >= 0, self.rank == self.card)
        yield "nothing is known before the first search", z3.Implies(self.limit == 0, z3.And(n == 0, self.card == 0, z3.Not(self.exhausted)))
        yield "known outputs fit in the searches done", z3.Implies(self.limit >= 1, self.card + n <= 2 * self.limit - 1)
        yield "pending items are unyielded outputs with their weights", z3.ForAll(
            [m], z3.Implies(inside(m), z3.And(IN(T(m)), z3.Not(z3.Select(Y, T(m))), WT(m) == W(T(m)), z3.Select(self.mi, T(m)) == m)), patterns=[T(m)])
        yield "pending items are sorted", z3.ForAll([j, m], z3.Implies(z3.And(inside(j), inside(m), j <= m), WT(j) <= WT(m)), patterns=[multi(T(j), T(m))])
        rest = z3.And(IN(t), z3.Not(z3.Select(Y, t)), z3.Not(self.member(t)))
        yield "after exhaustion every unyielded output is pending", z3.ForAll([t], z3.Implies(rest, z3.Not(self.exhausted)), patterns=[IN(t)])
        yield "unknown outputs cost at least as much as every pending one", z3.ForAll(
            [t, m], z3.Implies(z3.And(rest, inside(m)), WT(m) <= W(t)), patterns=[multi(IN(t), T(m))])
        yield "yielded texts are outputs", z3.ForAll([t], z3.Implies(z3.Select(Y, t), IN(t)), patterns=[z3.Select(Y, t)])
        yield "yielded texts cost at most what is left", z3.ForAll(
            [t, u], z3.Implies(z3.And(z3.Select(Y, t), IN(u), z3.Not(z3.Select(Y, u))), W(t) <= W(u)), patterns=[multi(z3.Select(Y, t), IN(u))])


FIELDS = ("_items", "_limit", "_exhausted")


def stream_object(I):
    lang = Language(I)
    obj = I.new_obj(real_module()._UniqueOutputPathStream, label="self")
    obj.attrs.update({
        "_lattice": I.sym(Lattice(lang, "clean")),
        "_items": fresh_items(I),
        "_yielded": fresh_set(I, "Y"),
        "_next_rank": I.ctx.fresh("rank", INT),
        "_limit": I.ctx.fresh("limit", INT),
        "_exhausted": I.ctx.fresh("exhausted", BOOL),
    })
    for _, f in State(obj).invariant():
        I.ctx.assume(f)
    return obj


class Init(Contract):
    target = CLS + ".__init__"

    def setup(self, I):
        obj = I.new_obj(real_module()._UniqueOutputPathStream, label="self")
        lattice = I.sym(Lattice(Language(I), "raw"))
        return [obj, lattice], {}

    def frame(self, I, args, kwargs):
        return [(args[0], "*")]

    def post(self, I, old, args, kwargs, result):
        obj, lattice = args[0], args[1]
        try:
            state = State(obj)
        except KeyError:
            yield "the stream is initialised", z3.BoolVal(False)
            return
        yield "the stream searches the given automaton", z3.BoolVal(state.language is lattice.language)
        yield "nothing was yielded", z3.And(state.card == 0, z3.BoolVal(isinstance(obj.attrs["_yielded"], pydv.PSet)))
        for name, f in state.invariant():
            yield name, f


def items_fields(obj):
    items = obj.attrs["_items"]
    return [(items, f) for f in items.attrs] if isinstance(items, Items) else []


class Method_(Contract):

    def setup(self, I):
        return [stream_object(I)], {}

    def snapshot(self, I, args, kwargs):
        return State(args[0])

    def frame(self, I, args, kwargs):
        return [(args[0], f) for f in FIELDS] + items_fields(args[0])

    def havoc(self, I, args, kwargs):
        obj = args[0]
        I.retire(obj.attrs["_items"])
        obj.attrs["_items"] = fresh_items(I)
        obj.attrs["_limit"] = I.ctx.fresh("limit", INT)
        obj.attrs["_exhausted"] = I.ctx.fresh("exhausted", BOOL)

    def pre(self, I, args, kwargs):
        return State(args[0]).invariant()


class Expand(Method_):
    target = CLS + "._expand"

    def setup(self, I):
        obj = stream_object(I)
        I.ctx.assume(State(obj).n == 0)
        return [obj], {}

    def pre(self, I, args, kwargs):
        yield from Method_.pre(self, I, args, kwargs)
        yield "no item is pending", State(args[0]).n == 0

    def post(self, I, old, args, kwargs, result):
        now = State(args[0])
        for name, f in now.invariant():
            yield name, f
        yield "an item is pending or everything is known", z3.Or(now.n > 0, now.exhausted)


def local_of(L, cls):
    found = [v for v in L.frame.locals.values() if isinstance(v, cls)]
    if len(found) != 1:
        raise pydv.Unsupported("the loop contract needs one local %s" % cls.__name__)
    return found[0]


class ExpandLoop(Loop):
    """Reads the paths: items are the unyielded ones among those read."""

    havoc = {"items": lambda L: fresh_items(L.I), "seen": lambda L: fresh_set(L.I, "seen"), "path_count": "int"}

    def enter(self, L):
        obj = L.find("_UniqueOutputPathStream")
        I = L.I
        LEFT, old = I.ctx.fresh_fn("LEFT", INT, INT), State(obj)
        # LEFT(k): how many yielded texts are not among the first k paths
        I.v.used_models.add("cardinality of a finite set")
        I.ctx.assume(LEFT(0) == old.card)
        return {"obj": obj, "paths": local_of(L, Paths), "old": old, "LEFT": LEFT}

    def modifies(self, L):
        yield L.paths, "pos", lambda L: L.I.ctx.fresh("pos", INT)

    def assumes(self, L):
        k = z3.Int("k")
        best, old = L.paths.best, L.old
        yield z3.And(L.LEFT(L.paths.get("pos")) >= 0, L.LEFT(L.paths.get("pos") + 1) >= 0)
        yield z3.ForAll([k], z3.Implies(z3.And(k >= 0, k < best.K), L.LEFT(k + 1) == L.LEFT(k) - z3.If(z3.Select(old.Y, best.T(k)), 1, 0)), patterns=[L.LEFT(k + 1)])

    def inv(self, L):
        best, old, pos = L.paths.best, L.old, L.paths.get("pos")
        Y = old.Y
        b, n, txt, wt, mi = items_arrays(L["items"])
        seen, _ = set_arrays(L["seen"])
        T = lambda m: z3.Select(txt, m)
        m, j, t = z3.Ints("m j t")
        inside = lambda m: z3.And(m >= b, m < b + n)
        read = lambda t: z3.And(best.found(t), best.POS(t) < pos, z3.Not(z3.Select(Y, t)))
        yield "every path read is counted", z3.And(zint(L["path_count"]) == pos, pos >= 0, pos <= best.K)
        yield "items are the new texts among them", z3.And(n == pos - (old.card - L.LEFT(pos)), L.LEFT(pos) <= old.card)
        yield "seen texts", z3.ForAll([t], z3.Select(seen, t) == read(t), patterns=[z3.Select(seen, t)])
        yield "items so far", z3.ForAll([m], z3.Implies(inside(m), z3.And(read(T(m)), z3.Select(wt, m) == best.language.W(T(m)), z3.Select(mi, T(m)) == m)), patterns=[T(m)])
        yield "items in path order", z3.ForAll([j, m], z3.Implies(z3.And(inside(j), inside(m), j < m), best.POS(T(j)) < best.POS(T(m))), patterns=[multi(T(j), T(m))])
        idx = z3.Select(mi, t)
        yield "every new text is an item", z3.ForAll([t], z3.Implies(read(t), z3.And(inside(idx), T(idx) == t)), patterns=[best.POS(t)])

    def variant(self, L):
        return L.paths.best.K - L.paths.get("pos")


class Peek(Method_):
    target = CLS + ".peek"

    def result(self, I, args, kwargs):
        if I.ctx.choose("the stream has an output left"):
            return I.instantiate(real_module()._WeightedOutput, [TextId(I.ctx.fresh("text", INT)), I.ctx.fresh("weight", REAL), I.ctx.fresh("rank", INT)], {})
        return None

    def chosen(self, I, old, args, result):
        """What every result must be."""
        IN, W, Y = old.language.IN, old.language.W, old.Y
        t = z3.Int("t")
        left = z3.And(IN(t), z3.Not(z3.Select(Y, t)))
        if result is None:
            yield "None only when every output was yielded", z3.ForAll([t], z3.Not(left), patterns=[IN(t)])
            return
        x, w = item_parts(result)
        yield "an output not yielded before", z3.And(IN(x), z3.Not(z3.Select(Y, x)), w == W(x))
        yield "the cheapest one", z3.ForAll([t], z3.Implies(left, W(x) <= W(t)), patterns=[IN(t)])
        yield "the rank is its position", zint(result.attrs["rank"]) == old.card
        yield "a pending output is not replaced", z3.Implies(old.n > 0, x == z3.Select(old.txt, old.b))

    def post(self, I, old, args, kwargs, result):
        now = State(args[0])
        yield from self.chosen(I, old, args, result)
        if result is not None:
            yield "the next call starts from the same output", z3.And(now.n > 0, item_parts(result)[0] == z3.Select(now.txt, now.b))
        else:
            yield "nothing is pending", now.n == 0
        yield from now.invariant()


class PeekLoop(Loop):

    def enter(self, L):
        obj = L.find("_UniqueOutputPathStream")
        return {"obj": obj, "old": State(obj)}

    def modifies(self, L):
        yield L.obj, "_items", lambda L: fresh_items(L.I)
        yield L.obj, "_limit", "int"
        yield L.obj, "_exhausted", "bool"

    def inv(self, L):
        now = State(L.obj)
        yield from now.invariant()
        m = z3.Int("m")
        yield "pending items stay", z3.Implies(L.old.n > 0, z3.And(now.n > 0, z3.Select(now.txt, now.b) == z3.Select(L.old.txt, L.old.b)))

    def variant(self, L):
        now = State(L.obj)
        return z3.If(z3.Or(now.n > 0, now.exhausted), z3.IntVal(0), z3.IntVal(1))


class Pop(Peek):
    target = CLS + ".pop"

    def frame(self, I, args, kwargs):
        return [(args[0], f) for f in FIELDS + ("_next_rank",)] + [(args[0].attrs["_yielded"], f) for f in ("dom", "card")] + items_fields(args[0])

    def post(self, I, old, args, kwargs, result):
        now = State(args[0])
        yield from self.chosen(I, old, args, result)
        if result is None:
            yield "nothing more is yielded", z3.And(now.Y == old.Y, now.card == old.card)
        else:
            yield "exactly this output is yielded", z3.And(now.Y == z3.Store(old.Y, item_parts(result)[0], z3.BoolVal(True)), now.card == old.card + 1)
        yield from now.invariant()


def lemmas(v):
    """The sequence of pops: texts TX(j), j < LEN, from the contract of pop."""
    IN, W, TX = z3.Function("IN", INT, BOOL), z3.Function("W", INT, REAL), z3.Function("TX", INT, INT)
    Y = z3.Function("YIELDED", INT, INT, BOOL)  # (pops so far, text)
    HAS = z3.Function("HAS", INT, BOOL)  # pop number j returns a text
    j, k, t = z3.Ints("j k t")
    left = lambda j, t: z3.And(IN(t), z3.Not(Y(j, t)))
    pop = [
        z3.ForAll([t], z3.Not(Y(0, t)), patterns=[Y(0, t)]),
        z3.ForAll([j], z3.Implies(z3.And(j >= 0, HAS(j)), z3.And(IN(TX(j)), z3.Not(Y(j, TX(j))))), patterns=[TX(j)]),
        z3.ForAll([j, t], z3.Implies(z3.And(j >= 0, HAS(j), left(j, t)), W(TX(j)) <= W(t)), patterns=[multi(HAS(j), Y(j, t))]),
        z3.ForAll([j, t], z3.Implies(z3.And(j >= 0, z3.Not(HAS(j))), z3.Not(left(j, t))), patterns=[multi(HAS(j), Y(j, t))]),
        z3.ForAll([j, t], z3.Implies(j >= 0, Y(j + 1, t) == z3.Or(Y(j, t), z3.And(HAS(j), t == TX(j)))), patterns=[Y(j + 1, t)]),
    ]
    a, b, c = z3.Ints("a b c")
    v.lemma("pops: no text comes after the end", pop + [a >= 0, z3.Not(HAS(a))], z3.Implies(HAS(a + 1), z3.And(Y(a, TX(a + 1)) != Y(a, TX(a + 1)))))
    v.lemma("pops: weights do not decrease (one step)", pop + [a >= 0, HAS(a), HAS(a + 1), Y(a + 1, TX(a + 1)) == Y(a + 1, TX(a + 1)), Y(a, TX(a + 1)) == Y(a, TX(a + 1))], W(TX(a)) <= W(TX(a + 1)))
    v.lemma("pops: weights do not decrease (step)", pop + [
        a >= 0, b >= a, HAS(a), HAS(b), HAS(b + 1), W(TX(a)) <= W(TX(b)), W(TX(b)) <= W(TX(b + 1))], W(TX(a)) <= W(TX(b + 1)))
    # a text yielded by pop j stays yielded; so later texts differ
    v.lemma("pops: yielded texts stay yielded (base)", pop + [a >= 0, HAS(a)], Y(a + 1, TX(a)))
    v.lemma("pops: yielded texts stay yielded (step)", pop + [a >= 0, b > a, Y(b, TX(a))], Y(b + 1, TX(a)))
    v.lemma("pops: texts are distinct", pop + [a >= 0, b > a, HAS(a), HAS(b), Y(b, TX(a))], TX(a) != TX(b))
    v.lemma("pops: what is left costs at least as much", pop + [a >= 0, HAS(a), Y(a + 1, c) == Y(a + 1, c), Y(a, c) == Y(a, c), left(a + 1, c)], W(TX(a)) <= W(c))
    v.lemma("pops: at the end nothing is left", pop + [a >= 0, z3.Not(HAS(a)), IN(c)], Y(a, c))


CONTRACTS = {"__init__": Init, "_expand": Expand, "peek": Peek, "pop": Pop}


def install(v):
    import pynini
    v.model(pynini.shortestpath, m_shortestpath, "pynini.shortestpath(nshortest, unique=True)")
    for c in CONTRACTS.values():
        v.contract(c())
    v.loop(CLS + "._expand", 0, ExpandLoop())
    v.loop(CLS + ".peek", 0, PeekLoop())


def prove(v, names=None):
    install(v)
    for name, c in CONTRACTS.items():
        if not names or name in names:
            v.verify(c())
    if not names or "lemmas" in names:
        lemmas(v)
