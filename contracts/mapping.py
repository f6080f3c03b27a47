"""Contracts of the mapping half of tn.processor.Processor (C05).

Token t of a tagged text occupies tagged[TS(t):TE(t)]; the input it owns is
[IS(t), IE(t)) (contract of trace_input_spans) and its output [OS(t), OE(t))
(contract of transduce_with_spans); both contracts are proved for C06.  The
mapping list must be: for every token in order, or for every token whose input
and output differ, the record of those two ranges."""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, Contract, Loop, Method, Obj, Sym, zint
from contracts.alignment import error_class
from contracts.models import Seq
from contracts.nbest import (PROC, Graph, Input, NBest, World, TokenParserOf, Validate, arguments, fresh_candidates, CView, map_model, parse_error, world)
from contracts.streams import TextId, real_module

MOD = "tn.processor"
ALIGN = "tn.alignment"


def alignment_module():
    import tn.alignment
    return tn.alignment


class Trace:
    """Ghost: the analysis of one candidate."""

    def __init__(self, I, w):
        f = I.ctx.fresh_fn
        self.w = w
        self.LEN = f("LEN", INT, INT)
        self.SUB = f("SUB", INT, INT, INT, INT)
        self.M = f("TOKENS", INT, INT)
        self.TS, self.TE, self.NAME = f("TS", INT, INT, INT), f("TE", INT, INT, INT), f("NAME", INT, INT, INT)
        self.PS, self.PE = f("PS", INT, INT, INT), f("PE", INT, INT, INT)
        # owned ranges, by (input, tagged) and (reordered, output)
        self.IS, self.IE = f("IS", INT, INT, INT, INT), f("IE", INT, INT, INT, INT)
        self.OS, self.OE = f("OS", INT, INT, INT, INT), f("OE", INT, INT, INT, INT)
        # which tokens are listed
        self.CNT, self.SEL = f("CNT", INT, INT), f("SEL", INT, INT)
        r, s, t = z3.Ints("r s t")
        A = I.ctx.assume
        A(z3.ForAll([r], z3.And(self.LEN(r) >= 0, self.M(r) >= 0), patterns=[self.LEN(r), self.M(r)]))
        # C03 / C04: token spans of a parsed text and of its reordered text
        for lo, hi, text in ((self.TS, self.TE, lambda r: r), (self.PS, self.PE, w.REO)):
            A(z3.ForAll([r, t], z3.Implies(z3.And(t >= 0, t < self.M(r)), z3.And(lo(r, t) >= z3.If(t == 0, 0, hi(r, t - 1)), lo(r, t) < hi(r, t),
                                                                                hi(r, t) <= self.LEN(text(r)))), patterns=[lo(r, t)]))

    def inputs(self, x, r, t):
        """C06: input ranges are not empty, ordered and inside the input."""
        a, b = self.IS(x, r, t), self.IE(x, r, t)
        return z3.And(a >= z3.If(t == 0, 0, self.IE(x, r, t - 1)), a >= 0, a < b, b <= self.LEN(x))

    def outputs(self, p, y, t):
        a, b = self.OS(p, y, t), self.OE(p, y, t)
        return z3.And(a >= z3.If(t == 0, 0, self.OE(p, y, t - 1)), a >= 0, a <= b, b <= self.LEN(y))


def trace(I):
    return I.globals_ghost["trace"]


class Chars(Input):
    """A text given by identity, with its slices."""

    def __init__(self, term, empty=None):
        Input.__init__(self, term, z3.BoolVal(False) if empty is None else empty)
        self.given = empty

    def py_truth(self, I):
        return trace(I).LEN(self.term) > 0 if self.given is None else z3.Not(self.given)

    def py_len(self, I):
        return trace(I).LEN(self.term)

    def py_eq(self, I, other):
        if isinstance(other, str) and other == "":
            return trace(I).LEN(self.term) == 0
        return TextId.py_eq(self, I, other)

    def py_getitem(self, I, index):
        g = trace(I)
        if not isinstance(index, slice) or index.step is not None:
            raise pydv.Unsupported("character of a text")
        lo = z3.IntVal(0) if index.start is None else zint(index.start)
        hi = g.LEN(self.term) if index.stop is None else zint(index.stop)
        I.ctx.prove("slice inside the text", z3.And(lo >= 0, lo <= hi, hi <= g.LEN(self.term)))
        out = Chars(g.SUB(self.term, lo, hi))
        I.ctx.assume(g.LEN(out.term) == hi - lo)
        return I.sym(out)


def candidate_texts(obj):
    """The candidate's texts, as sliceable texts."""
    for field in ("tagged", "output"):
        obj.attrs[field] = Chars(obj.attrs[field].term)
    return obj


class TokenView(Sym):
    frozen = True

    def __init__(self, r, t):
        super().__init__()
        self.r, self.t = r, t

    def py_getattr(self, I, name):
        g = trace(I)
        if name in ("start", "end"):
            return (g.TS if name == "start" else g.TE)(self.r, self.t)
        if name == "name":
            return TextId(g.NAME(self.r, self.t))
        raise pydv.Unsupported("token.%s" % name)


class Spans(Seq):
    """Pairs (lo(t), hi(t)) for t < length."""

    def __init__(self, length, lo, hi, ident):
        super().__init__(length, lambda I, t: (lo(t), hi(t)), None, "spans")
        self.ident = ident

    def py_tuple(self, I):
        return self

    py_list = py_tuple


class ParserView(Sym):
    """A parser by its contract (C03, C04)."""

    def __init__(self):
        super().__init__(parsed=z3.IntVal(-1))
        self.text = None

    def py_getattr(self, I, name):
        if name == "tokens":
            if self.text is None:
                raise pydv.Unsupported("the tokens of a parser that has not parsed")
            r = self.text
            return I.sym(Seq(trace(I).M(r), lambda I, t: I.sym(TokenView(r, t)), None, "tokens"))
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name not in ("reorder_with_spans", "reorder", "parse") or len(args) != 1 or kwargs or not isinstance(args[0], TextId):
            raise pydv.Unsupported("parser.%s" % name)
        I.v.used_contracts.add("tn.token_parser:TokenParser.%s" % name)
        if I.ctx.choose("the tag is malformed"):
            raise pydv.PyRaise(pydv.ExcVal(parse_error(), ("malformed",)))
        r = args[0].term
        self.text = r
        g = trace(I)
        reordered = Chars(g.w.REO(r))
        if name == "parse":
            return None
        if name == "reorder":
            return reordered
        return (reordered, I.sym(Spans(g.M(r), lambda t: g.PS(r, t), lambda t: g.PE(r, t), ("reordered", r))))


class ParserClass(TokenParserOf):

    def apply(self, I, args, kwargs):
        return I.sym(ParserView())


def is_spans(I, value, length, lo, hi):
    """Formula: the sequence of the pairs (lo(t), hi(t)), t < length."""
    if not isinstance(value, Seq):
        return z3.BoolVal(False)
    t = I.ctx.fresh("t", INT)
    n = zint(value.get("length"))
    pair = value.elem(I, t)
    if not isinstance(pair, tuple) or len(pair) != 2:
        return z3.BoolVal(False)
    return z3.And(n == length, z3.Implies(z3.And(t >= 0, t < length), z3.And(zint(pair[0]) == lo(t), zint(pair[1]) == hi(t))))


class TransduceCall(Contract):
    target = ALIGN + ":transduce_with_spans"

    def apply(self, I, args, kwargs):
        g = trace(I)
        a = arguments(args, kwargs, ["input_text", "fst", "input_spans", "output_text"], {"input_spans": (), "output_text": None})
        x, fst, spans, want = a["input_text"], a["fst"], a["input_spans"], a["output_text"]
        if not isinstance(x, TextId) or not isinstance(fst, Graph):
            raise pydv.Unsupported("transduce_with_spans of %r" % (x,))
        I.ctx.prove("transduce_with_spans: the verbalizer is traced", z3.BoolVal(fst.kind == "verbalizer"))
        I.v.used_contracts.add(self.target)
        r = I.globals_ghost["tagged"].term
        I.ctx.prove("transduce_with_spans: the reordered tag is verbalized", x.term == g.w.REO(r))
        if isinstance(spans, tuple) and not spans:
            n = z3.IntVal(0)
        else:
            n = g.M(r)
            I.ctx.prove("transduce_with_spans: the spans are those of the reordered tokens", is_spans(I, spans, n, lambda t: g.PS(r, t), lambda t: g.PE(r, t)))
        if I.ctx.choose("no traceable path"):
            raise pydv.PyRaise(pydv.ExcVal(error_class(), ("no path",)))
        y = I.ctx.fresh("output", INT) if want is None else want.term
        t = z3.Int("t")
        I.ctx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), g.outputs(x.term, y, t)), patterns=[g.OS(x.term, y, t)]))
        I.globals_ghost["traced"] = y
        return (Chars(y), I.sym(Spans(n, lambda t: g.OS(x.term, y, t), lambda t: g.OE(x.term, y, t), "output")))


class TraceCall(Contract):
    target = ALIGN + ":trace_input_spans"

    def apply(self, I, args, kwargs):
        g = trace(I)
        a = arguments(args, kwargs, ["input_text", "output_text", "fst", "output_spans"], {})
        x, r, fst, spans = a["input_text"], a["output_text"], a["fst"], a["output_spans"]
        if not isinstance(x, TextId) or not isinstance(r, TextId) or not isinstance(fst, Graph):
            raise pydv.Unsupported("trace_input_spans of %r" % (x,))
        I.v.used_contracts.add(self.target)
        I.ctx.prove("trace_input_spans: the tagger is traced", z3.BoolVal(fst.kind == "tagger"))
        I.ctx.prove("trace_input_spans: from the given text to the candidate's tag", z3.And(x.term == g.w.input, r.term == I.globals_ghost["tagged"].term))
        n = g.M(r.term)
        I.ctx.prove("trace_input_spans: the spans are those of the tokens", is_spans(I, spans, n, lambda t: g.TS(r.term, t), lambda t: g.TE(r.term, t)))
        if I.ctx.choose("no traceable path"):
            raise pydv.PyRaise(pydv.ExcVal(error_class(), ("no path",)))
        t = z3.Int("t")
        I.ctx.assume(z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), g.inputs(x.term, r.term, t)), patterns=[g.IS(x.term, r.term, t)]))
        return I.sym(Spans(n, lambda t: g.IS(x.term, r.term, t), lambda t: g.IE(x.term, r.term, t), "input"))


class Verbalize(Contract):
    """_verbalize_tagged: the parser that parsed the tag, the output, and the
    output range of every token when they are requested."""
    target = PROC + "._verbalize_tagged"

    def setup(self, I):
        new_world(I)
        r = I.globals_ghost["tagged"] = Chars(I.ctx.fresh("tagged", INT))
        kwargs = {}
        if I.ctx.choose("tokens are traced"):
            kwargs["trace_tokens"] = I.ctx.fresh("trace", BOOL)
        if I.ctx.choose("an output is requested"):
            kwargs["output_text"] = Chars(I.ctx.fresh("want", INT))
        return [processor(I), r], kwargs

    def parts(self, args, kwargs):
        a = arguments(args, kwargs, ["self", "tagged", "trace_tokens", "output_text"], {"trace_tokens": False, "output_text": None})
        return a["tagged"], a["trace_tokens"], a["output_text"]

    def pre(self, I, args, kwargs):
        tagged = self.parts(args, kwargs)[0]
        yield "a tagged text", z3.BoolVal(isinstance(tagged, TextId))

    def apply(self, I, args, kwargs):
        tagged = self.parts(args, kwargs)[0]
        I.globals_ghost["tagged"] = tagged
        return Contract.apply(self, I, args, kwargs)

    def result(self, I, args, kwargs):
        g = trace(I)
        tagged, traced, want = self.parts(args, kwargs)
        parser = I.sym(ParserView())
        parser.text = tagged.term
        y = I.ctx.fresh("output", INT) if want is None else want.term
        x = g.w.REO(tagged.term)
        n = z3.If(pydv.zbool(I.truth(traced)), g.M(tagged.term), 0)
        return (Chars(y), parser, I.sym(Spans(n, lambda t: g.OS(x, y, t), lambda t: g.OE(x, y, t), "output")))

    def post(self, I, old, args, kwargs, result):
        g = trace(I)
        tagged, traced, want = self.parts(args, kwargs)
        if not isinstance(result, tuple) or len(result) != 3 or not isinstance(result[0], TextId) or not isinstance(result[1], ParserView):
            raise pydv.Unsupported("_verbalize_tagged returns %r" % (result,))
        y, parser, spans = result
        x = g.w.REO(tagged.term)
        if want is not None:
            yield "the output is the requested one", y.term == want.term
        yield "the parser holds the tokens of the tag", z3.BoolVal(False) if parser.text is None else parser.text == tagged.term
        n = z3.If(pydv.zbool(I.truth(traced)), g.M(tagged.term), 0)
        yield "one output range per token when tokens are traced", z3.BoolVal(False) if not isinstance(spans, Seq) and spans != () else (
            n == 0 if spans == () else is_spans(I, spans, n, lambda t: g.OS(x, y.term, t), lambda t: g.OE(x, y.term, t)))
        t = z3.Int("t")
        yield "output ranges are ordered and inside the output", z3.ForAll([t], z3.Implies(z3.And(t >= 0, t < n), g.outputs(x, y.term, t)), patterns=[g.OS(x, y.term, t)])

    def untraceable(self, I, old, args, kwargs, exc):
        return ()

    @property
    def raises(self):
        return {error_class(): Verbalize.untraceable, parse_error(): Verbalize.untraceable}


class VerbalizeText(Contract):
    """verbalize: the output of the reordered tag."""
    target = PROC + ".verbalize"
    min_returns = 2

    def setup(self, I):
        new_world(I)
        r = I.globals_ghost["tagged"] = Chars(I.ctx.fresh("tagged", INT))
        return [processor(I), r], {}

    def post(self, I, old, args, kwargs, result):
        if isinstance(result, str):
            yield "only the empty text is verbalized as such", z3.And(z3.BoolVal(result == ""), trace(I).LEN(args[1].term) == 0)
        else:
            yield "the traced output", z3.And(z3.BoolVal(isinstance(result, TextId)), trace(I).LEN(args[1].term) > 0)

    @property
    def raises(self):
        return {error_class(): Verbalize.untraceable, parse_error(): Verbalize.untraceable}


# ------------------------------------------------------------ one candidate
class View:
    """The mapping list a candidate must get."""

    def __init__(self, I, x, r, y, identity):
        g = self.g = trace(I)
        self.x, self.r, self.y, self.identity = x, r, y, identity
        p = g.w.REO(r)
        self.M = g.M(r)
        self.A, self.B = (lambda t: g.IS(x, r, t)), (lambda t: g.IE(x, r, t))
        self.C, self.D = (lambda t: g.OS(p, y, t)), (lambda t: g.OE(p, y, t))
        self.source = lambda t: g.SUB(x, self.A(t), self.B(t))
        self.spoken = lambda t: g.SUB(y, self.C(t), self.D(t))

    def keep(self, t):
        return z3.Or(self.identity, self.source(t) != self.spoken(t))

    def facts(self, t):
        """Definition of the listing at token t."""
        CNT, SEL = self.g.CNT, self.g.SEL
        yield CNT(0) == 0
        yield CNT(t + 1) == CNT(t) + z3.If(self.keep(t), 1, 0)
        yield z3.Implies(self.keep(t), SEL(CNT(t)) == t)

    def is_mapping(self, I, obj, t):
        if not isinstance(obj, Obj) or obj.cls is not alignment_module().NormalizationMapping or not isinstance(obj.attrs.get("kind"), str):
            return z3.BoolVal(False)
        g, a = self.g, obj.attrs
        equal, empty = self.source(t) == self.spoken(t), self.C(t) == self.D(t)
        want = {"token_type": TextId(g.NAME(self.r, t)), "input_start": self.A(t), "input_end": self.B(t), "output_start": self.C(t), "output_end": self.D(t),
                "input_text": TextId(self.source(t)), "output_text": TextId(self.spoken(t))}
        kind = a["kind"]
        parts = [z3.And((kind == "equal") == equal, (kind == "delete") == z3.And(z3.Not(equal), empty), (kind == "replace") == z3.And(z3.Not(equal), z3.Not(empty)))]
        for field, value in want.items():
            if field not in a:
                return z3.BoolVal(False)
            parts.append(pydv.zbool(I.eq(a[field], value)))
        return z3.And(*parts)

    def seq(self, I, length):
        return I.sym(Seq(length, None, lambda I, n, v: self.is_mapping(I, v, self.g.SEL(n)), "mappings", True))

    def is_list(self, I, value, length):
        if isinstance(value, Seq) and value.tag == "mappings":
            return zint(value.get("length")) == length
        if isinstance(value, (pydv.PList, tuple)) and not I.concrete_items(value):
            return length == 0
        return z3.BoolVal(False)


class MappingLoop(Loop):
    havoc = {"mappings": lambda L: view(L.I).seq(L.I, L.I.ctx.fresh("n", INT))}

    def assumes(self, L):
        yield from view(L.I).facts(L.state)

    def inv(self, L):
        v = view(L.I)
        L.I.ctx.assume(v.g.CNT(0) == 0)
        yield "a listed mapping for every token so far that is to be listed", z3.And(v.is_list(L.I, L["mappings"], v.g.CNT(L.state)), v.g.CNT(L.state) >= 0)


def view(I):
    return I.globals_ghost["view"]


def new_world(I):
    w = I.globals_ghost["world"] = World(I)
    I.globals_ghost["trace"] = Trace(I, w)
    return w


def processor(I):
    obj = I.new_obj(real_module().Processor, label="self")
    obj.attrs.update({"tagger": I.sym(Graph("tagger")), "verbalizer": I.sym(Graph("verbalizer"))})
    return obj


class CandidateMapping(Contract):
    target = PROC + "._normalize_candidate_with_mapping"

    def setup(self, I):
        w = new_world(I)
        i, j = I.ctx.fresh("i", INT), I.ctx.fresh("j", INT)
        I.ctx.assume(w.VALID(i, j))
        c = candidate_texts(w.candidate(I, i, j))
        identity = I.ctx.fresh("include_identity", BOOL)
        x = Chars(w.input)
        I.globals_ghost["tagged"] = c.attrs["tagged"]
        I.globals_ghost["view"] = View(I, x.term, c.attrs["tagged"].term, c.attrs["output"].term, identity)
        return [processor(I), x, c, identity], {}

    def parts(self, args, kwargs):
        a = arguments(args, kwargs, ["self", "input", "candidate", "include_identity"], {})
        return a["input"], a["candidate"], a["include_identity"]

    def pre(self, I, args, kwargs):
        x, c, identity = self.parts(args, kwargs)
        w = world(I)
        yield "the given text", x.term == w.input
        ok = isinstance(c, Obj) and c.cls is real_module()._NormalizationCandidate
        yield "a candidate of that text", w.VALID(zint(c.attrs["tagger_rank"]), zint(c.attrs["verbalizer_rank"])) if ok else z3.BoolVal(False)

    def result(self, I, args, kwargs):
        x, c, identity = self.parts(args, kwargs)
        v = View(I, x.term, c.attrs["tagged"].term, c.attrs["output"].term, pydv.zbool(I.truth(identity)))
        obj = I.instantiate(alignment_module().NormalizationResult, [x, Chars(c.attrs["output"].term), v.seq(I, I.ctx.fresh("n", INT))], {})
        obj.ghost_view = v
        return obj

    def post(self, I, old, args, kwargs, result):
        x, c, identity = self.parts(args, kwargs)
        if not isinstance(result, Obj) or result.cls is not alignment_module().NormalizationResult:
            raise pydv.Unsupported("_normalize_candidate_with_mapping returns %r" % (result,))
        v = getattr(result, "ghost_view", None) or view(I)
        a = result.attrs
        yield "the input is recorded", z3.And(z3.BoolVal(isinstance(a["input_text"], TextId)), getattr(a["input_text"], "term", z3.IntVal(-1)) == x.term)
        yield "the output is the candidate's", getattr(a["output_text"], "term", z3.IntVal(-1)) == c.attrs["output"].term
        yield "the mappings are the records of the listed tokens, in order", v.is_list(I, a["mappings"], v.g.CNT(v.M))

    @property
    def raises(self):
        return {error_class(): Verbalize.untraceable, parse_error(): Verbalize.untraceable}


# --------------------------------------------------------- all candidates
class Mappings(Contract):
    target = PROC + ".normalize_with_mapping"
    min_returns = 3

    def setup(self, I):
        w = new_world(I)
        empty = I.ctx.fresh("empty", BOOL)
        I.ctx.assume(empty == (trace(I).LEN(w.input) == 0))
        I.globals_ghost.pop("candidates", None)
        kwargs = {}
        if I.ctx.choose("n is given"):
            kwargs["nbest"] = I.ctx.fresh("n", INT)
        if I.ctx.choose("include_identity is given"):
            kwargs["include_identity"] = I.ctx.fresh("include_identity", BOOL)
        return [processor(I), Chars(w.input, empty)], kwargs

    def n(self, kwargs):
        return zint(kwargs.get("nbest", 1))

    def of(self, I, result, x, r, y, identity):
        """Formula: the result of the candidate with tag r and output y."""
        if not isinstance(result, Obj) or result.cls is not alignment_module().NormalizationResult:
            return z3.BoolVal(False)
        a, v = result.attrs, getattr(result, "ghost_view", None)
        if v is None:
            return z3.BoolVal(False)
        return z3.And(a["input_text"].term == x.term, a["output_text"].term == y, v.x == x.term, v.r == r, v.y == y, v.identity == identity)

    def post(self, I, old, args, kwargs, result):
        w, n, x = world(I), self.n(kwargs), args[1]
        identity = pydv.zbool(kwargs.get("include_identity", False))
        C = I.globals_ghost.get("candidates")
        yield "n is positive", n >= 1
        single = not isinstance(result, (Seq, pydv.PList, list, tuple))
        yield "a single result exactly for n = 1", z3.BoolVal(single) == (n == 1)
        if C is None:
            yield "only an empty text has no candidates", x.empty
            r = result if single else (result.items[0] if isinstance(result, pydv.PList) and len(result.items) == 1 else None)
            ok = isinstance(r, Obj) and r.cls is alignment_module().NormalizationResult
            yield "the result of the empty text is empty", z3.BoolVal(ok and r.attrs["input_text"] == "" and r.attrs["output_text"] == "" and r.attrs["mappings"] == ())
            return
        V = CView(w, C)
        yield "a text that is not empty is normalized", z3.Not(x.empty)
        yield "the candidates are the first n", NBest.cut(w, V, n)

        def right(m, value):
            i, j = V.pair(m)
            return self.of(I, value, x, w.TAG(i), w.OUT(i, j), identity)

        if single:
            yield "the result of the first candidate of normalize", right(z3.IntVal(0), result)
        else:
            m = I.ctx.fresh("m", INT)
            I.ctx.assume(z3.And(m >= 0, m < V.c))
            if not isinstance(result, Seq):
                raise pydv.Unsupported("normalize_with_mapping returns %r" % (result,))
            yield "as many results as normalize has outputs", zint(result.get("length")) == V.c
            yield "the result of every candidate of normalize, in order", right(m, result.elem(I, m))

    def invalid(self, I, old, args, kwargs, exc):
        yield "n is not positive", self.n(kwargs) < 1

    def untraceable(self, I, old, args, kwargs, exc):
        yield "only for a text", z3.Not(args[1].empty)

    @property
    def raises(self):
        return {ValueError: Mappings.invalid, RuntimeError: Mappings.untraceable, error_class(): Mappings.untraceable, parse_error(): Mappings.untraceable}


class TextCandidates(NBest):
    """_normalization_candidates at the call site (proved in contracts/nbest)."""


# ------------------------------------------------------------------ as_dict
class AsDict(Contract):
    target = ALIGN + ":NormalizationMapping.as_dict"

    def setup(self, I):
        fields = ["kind", "token_type", "input_start", "input_end", "output_start", "output_end", "input_text", "output_text"]
        values = {f: (TextId if f in ("kind", "token_type") or f.endswith("text") else (lambda t: t))(I.ctx.fresh(f, INT)) for f in fields}
        return [I.instantiate(alignment_module().NormalizationMapping, [], values)], {}

    def post(self, I, old, args, kwargs, result):
        a = args[0].attrs
        want = {"kind": a["kind"], "token_type": a["token_type"], "input": {"start": a["input_start"], "end": a["input_end"], "text": a["input_text"]},
                "output": {"start": a["output_start"], "end": a["output_end"], "text": a["output_text"]}}

        def same(value, want):
            if isinstance(want, dict):
                if not isinstance(value, pydv.PDict) or list(value.items) != list(want):
                    return z3.BoolVal(False)
                return z3.And(*[same(value.items[k], want[k]) for k in want])
            return pydv.zbool(I.eq(value, want))

        yield "the record's fields by name", same(result, want)


class ResultDict(Contract):
    target = ALIGN + ":NormalizationResult.as_dict"

    def setup(self, I):
        n = I.ctx.fresh("n", INT)
        I.ctx.assume(n >= 0)
        maps = I.sym(Seq(n, lambda I, m: I.sym(MappingView(m)), None, "mappings"))
        x, y = TextId(I.ctx.fresh("x", INT)), TextId(I.ctx.fresh("y", INT))
        return [I.instantiate(alignment_module().NormalizationResult, [x, y, maps], {})], {}

    def post(self, I, old, args, kwargs, result):
        a = args[0].attrs
        if not isinstance(result, pydv.PDict) or sorted(result.items) != ["input", "mappings", "output"]:
            yield "the three fields", z3.BoolVal(False)
            return
        r = result.items
        yield "the texts", z3.And(pydv.zbool(I.eq(r["input"], a["input_text"])), pydv.zbool(I.eq(r["output"], a["output_text"])))
        m = I.ctx.fresh("m", INT)
        n = zint(a["mappings"].get("length"))
        I.ctx.assume(z3.And(m >= 0, m < n))
        got = r["mappings"]
        if not isinstance(got, Seq):
            raise pydv.Unsupported("mappings of %r" % (got,))
        e = got.elem(I, m)
        yield "one record per mapping, in order", z3.And(zint(got.get("length")) == n, e.m == m if isinstance(e, DictOf) else z3.BoolVal(False))


class MappingView(Sym):
    frozen = True

    def __init__(self, m):
        super().__init__()
        self.m = m

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "as_dict" and not args and not kwargs:
            return I.sym(DictOf(self.m))
        raise pydv.Unsupported("mapping.%s" % name)


class DictOf(MappingView):
    pass


# ------------------------------------------------------------- token_parser
class TokenParserFor(Contract):
    """token_parser: a parser of the pipeline's own orders."""
    target = PROC + ".token_parser"
    min_returns = 2

    def setup(self, I):
        obj = I.new_obj(real_module().Processor, label="self")
        own = I.ctx.choose("the pipeline has its own orders")
        obj.attrs.update({"token_orders": TextId(I.ctx.fresh("orders", INT)) if own else None, "ordertype": TextId(I.ctx.fresh("ordertype", INT))})
        return [obj], {}

    def post(self, I, old, args, kwargs, result):
        a = args[0].attrs
        want = a["ordertype"] if a["token_orders"] is None else a["token_orders"]
        yield "a parser of the pipeline's orders", result.orders.term == want.term if isinstance(result, NewParser) else z3.BoolVal(False)


class NewParser(Sym):
    frozen = True

    def __init__(self, orders):
        super().__init__()
        self.orders = orders


class NewParserClass(Contract):
    target = "tn.token_parser:TokenParser"

    def apply(self, I, args, kwargs):
        value = args[0] if args else kwargs.get("ordertype")
        if not isinstance(value, TextId):
            raise pydv.Unsupported("TokenParser(%r)" % (value,))
        return I.sym(NewParser(value))


def lemmas(v):
    """The listing: everything in order, or exactly what differs."""
    saved, v.axioms = v.axioms, []
    CNT, SEL = z3.Function("CNT", INT, INT), z3.Function("SEL", INT, INT)
    keep = z3.Function("keep", INT, BOOL)
    t, u, n = z3.Ints("t u n")
    step = [CNT(0) == 0, t >= 0, CNT(t + 1) == CNT(t) + z3.If(keep(t), 1, 0), z3.Implies(keep(t), SEL(CNT(t)) == t)]
    v.lemma("the listing is no longer than the tokens: step", step + [CNT(t) >= 0, CNT(t) <= t], z3.And(CNT(t + 1) >= 0, CNT(t + 1) <= t + 1))
    below = lambda m: z3.ForAll([n], z3.Implies(z3.And(n >= 0, n < CNT(m)), z3.And(SEL(n) >= 0, SEL(n) < m, keep(SEL(n)), CNT(SEL(n)) == n)), patterns=[SEL(n)])
    v.lemma("listed entries are listed tokens: step", step + [CNT(t) >= 0, below(t)], below(t + 1))
    v.lemma("entries are in token order", [below(u), n >= 0, t > n, t < CNT(u), SEL(n) >= SEL(t),
                                           z3.ForAll([n, t], z3.Implies(z3.And(n >= 0, n <= t, t < u), CNT(n) <= CNT(t)), patterns=[multi2(CNT(n), CNT(t))])], z3.BoolVal(False))
    v.lemma("counts never decrease: step", step + [u >= 0, u <= t, CNT(u) <= CNT(t)], CNT(u) <= CNT(t + 1))
    v.lemma("every listed token has its entry", step + [keep(t), below(u), t < u, CNT(t + 1) <= CNT(u)], z3.And(CNT(t) < CNT(u), SEL(CNT(t)) == t))
    v.lemma("with include_identity entry t is token t: step", step + [keep(t), CNT(t) == t], z3.And(CNT(t + 1) == t + 1, SEL(t) == t))
    v.axioms = saved


def multi2(*terms):
    return z3.MultiPattern(*terms)


CONTRACTS = {"_verbalize_tagged": Verbalize, "verbalize": VerbalizeText, "_normalize_candidate_with_mapping": CandidateMapping, "normalize_with_mapping": Mappings}


def install(v):
    v.comprehension_model = map_model
    for c in list(CONTRACTS.values()) + [Validate, TextCandidates, TransduceCall, TraceCall, ParserClass]:
        v.contract(c())
    v.loop(PROC + "._normalize_candidate_with_mapping", 0, MappingLoop())


def prove(v, names=None):
    install(v)
    for name, c in CONTRACTS.items():
        if not names or name in names:
            v.verify(c())
    for c in (AsDict, ResultDict):
        if not names or "as_dict" in names:
            v.verify(c())
    if not names or "token_parser" in names:
        v.contract(NewParserClass())
        v.verify(TokenParserFor())
    if not names or "lemmas" in names:
        lemmas(v)
