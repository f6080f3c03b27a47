"""Contracts of tn/token_parser.py (C01-C04).

The meaning of a tagged text is the run of a deterministic automaton over its
characters.  ``St`` carries everything the parser must have produced so far
(finished tokens, the open token, the open field), so "the tokens the text
denotes" is the state after the last character, and "malformed" is any final
state other than OUT.  The parser contracts tie every position of the parser
to the automaton state at that position.
"""
import string

import z3

from lib import pydv
from lib.pydv import BOOL, INT, STR, Char, Contract, Loop, Obj, Opaque, PDict, PList, S, Sym, SIter, Text, cat, charset, lit, seq

# ------------------------------------------------------------ specification
Opt = z3.Datatype("Opt")
Opt.declare("none")
Opt.declare("some", ("oval", STR))
Opt = Opt.create()
Fl = z3.Datatype("Fl")  # fields of a token, last field outermost
Fl.declare("fnil")
Fl.declare("fsnoc", ("finit", Fl), ("fkey", STR), ("fval", STR))
Fl = Fl.create()
Kl = z3.Datatype("Kl")  # list of keys
Kl.declare("knil")
Kl.declare("ksnoc", ("kinit", Kl), ("klast", STR))
Kl = Kl.create()
Tok = z3.Datatype("Tok")
Tok.declare("tok", ("tname", STR), ("tstart", INT), ("tend", INT), ("tfl", Fl))
Tok = Tok.create()
Tl = z3.Datatype("Tl")
Tl.declare("tnil")
Tl.declare("tsnoc", ("tinit", Tl), ("tlast", Tok))
Tl = Tl.create()
Sl = z3.Datatype("Sl")
Sl.declare("slnil")
Sl.declare("slsnoc", ("slinit", Sl), ("sllast", STR))
Sl = Sl.create()
Pl = z3.Datatype("Pl")
Pl.declare("plnil")
Pl.declare("plsnoc", ("plinit", Pl), ("plfrom", INT), ("plto", INT))
Pl = Pl.create()
St = z3.Datatype("St")
St.declare("st", ("mode", INT), ("pos", INT), ("toks", Tl), ("name", STR), ("start", INT), ("fl", Fl), ("key", STR), ("val", STR))
St = St.create()
Map = z3.ArraySort(STR, Opt)

OUT, NAME, N1, N2, FLD, KEY, K1, K2, VAL, ESC, ERR = range(11)
EMPTY = z3.Empty(STR)
LETTERS = string.ascii_letters + "_"

KEYS = z3.Function("KEYS", Fl, Kl)
MAPF = z3.Function("MAPF", Fl, Map)
ESCV = z3.Function("ESCV", STR, STR)  # escaped form of a value
INK = z3.Function("INK", Kl, STR, BOOL)
FILT = z3.Function("FILT", Kl, Kl, Kl)  # keys of the first not in the second
APPK = z3.Function("APPK", Kl, Kl, Kl)
SERK = z3.Function("SERK", Kl, Map, STR)
HASORD = z3.Function("HASORD", STR, BOOL)  # the type has a configured order
CANON = z3.Function("CANON", STR, Kl)
JOINF = z3.Function("JOINF", Sl, STR)
SPANF = z3.Function("SPANF", Sl, Pl)
SERS = z3.Function("SERS", Tl, Sl)  # serialized tokens in canonical order


def has(f, k):
    return Opt.is_some(z3.Select(MAPF(f), k))


def letter(c):
    return charset(c, LETTERS)


def st(mode, pos, toks, name=EMPTY, start=0, fl=Fl.fnil, key=EMPTY, val=EMPTY):
    return St.st(mode, pos, toks, name, start, fl, key, val)


INIT = st(OUT, 0, Tl.tnil)
ERROR = st(ERR, 0, Tl.tnil)


def rules(s, c):
    """The wire grammar, one character: (mode, guard, next state)."""
    p = St.pos(s) + 1
    toks, name, start, fl, key, val = St.toks(s), St.name(s), St.start(s), St.fl(s), St.key(s), St.val(s)

    def ch(text):
        return c == ord(text)

    def single(mode, text, then):
        return [(mode, ch(text), then), (mode, z3.Not(ch(text)), ERROR)]

    u = z3.Unit(c)
    out = [
        (OUT, ch(" "), st(OUT, p, toks)),
        (OUT, letter(c), st(NAME, p, toks, u, St.pos(s))),
        (OUT, z3.Not(z3.Or(ch(" "), letter(c))), ERROR),
        (NAME, letter(c), st(NAME, p, toks, cat(name, u), start)),
        (NAME, ch(" "), st(N1, p, toks, name, start)),
        (NAME, z3.Not(z3.Or(ch(" "), letter(c))), ERROR),
    ]
    out += single(N1, "{", st(N2, p, toks, name, start))
    out += single(N2, " ", st(FLD, p, toks, name, start))
    out += [
        (FLD, ch(" "), st(FLD, p, toks, name, start, fl)),
        (FLD, ch("}"), st(OUT, p, Tl.tsnoc(toks, Tok.tok(name, start, p, fl)))),
        (FLD, letter(c), st(KEY, p, toks, name, start, fl, u)),
        (FLD, z3.Not(z3.Or(ch(" "), ch("}"), letter(c))), ERROR),
        (KEY, letter(c), st(KEY, p, toks, name, start, fl, cat(key, u))),
        (KEY, ch(":"), st(K1, p, toks, name, start, fl, key)),
        (KEY, z3.Not(z3.Or(ch(":"), letter(c))), ERROR),
    ]
    out += single(K1, " ", st(K2, p, toks, name, start, fl, key))
    out += single(K2, '"', st(VAL, p, toks, name, start, fl, key))
    special = z3.Or(ch('"'), ch("\\"))
    out += [
        (VAL, z3.And(ch('"'), has(fl, key)), ERROR),
        (VAL, z3.And(ch('"'), z3.Not(has(fl, key))), st(FLD, p, toks, name, start, Fl.fsnoc(fl, key, val))),
        (VAL, ch("\\"), st(ESC, p, toks, name, start, fl, key, val)),
        (VAL, z3.Not(special), st(VAL, p, toks, name, start, fl, key, cat(val, u))),
        (ESC, special, st(VAL, p, toks, name, start, fl, key, cat(val, u))),
        (ESC, z3.Not(special), st(VAL, p, toks, name, start, fl, key, cat(val, lit("\\"), u))),
    ]
    return out


def steps_to(s, c, t):
    """``t`` is the state after ``s`` reads ``c``."""
    cases = [z3.Implies(z3.And(St.mode(s) == m, g), t == n) for m, g, n in rules(s, c)]
    cases.append(z3.Implies(z3.Not(z3.And(St.mode(s) >= OUT, St.mode(s) < ERR)), t == ERROR))
    return z3.And(*cases)


def preserved(m):
    return z3.Select(m, lit("preserve_order")) == Opt.some(lit("true"))


def order_of(name, f):
    """The order C03 prescribes for the fields of one token."""
    return z3.If(z3.And(HASORD(name), z3.Not(preserved(MAPF(f)))), APPK(CANON(name), FILT(KEYS(f), CANON(name))), KEYS(f))


def ser(name, keys, m):
    return cat(name, lit(" {"), SERK(keys, m), lit(" }"))


def field_text(k, v):
    return cat(lit(" "), k, lit(': "'), ESCV(v), lit('"'))


def escape_char(c):
    return z3.If(c == ord("\\"), lit("\\\\"), z3.If(c == ord('"'), lit('\\"'), z3.Unit(c)))


def base_axioms():
    """Definitions of the specification functions (structural recursion)."""
    f = z3.Const("f", Fl)
    k, v, n = z3.Consts("k v n", STR)
    a, b = z3.Consts("a b", Kl)
    m = z3.Const("m", Map)
    sl = z3.Const("sl", Sl)
    t = z3.Const("t", Tok)
    tl = z3.Const("tl", Tl)

    def all_(vs, body, pat):
        return z3.ForAll(vs, body, patterns=[pat])

    ks = Kl.ksnoc(b, k)
    fs = Fl.fsnoc(f, k, v)
    ss = Sl.slsnoc(sl, k)
    return [
        KEYS(Fl.fnil) == Kl.knil,
        all_([f, k, v], KEYS(fs) == Kl.ksnoc(KEYS(f), k), KEYS(fs)),
        MAPF(Fl.fnil) == z3.K(STR, Opt.none),
        all_([f, k, v], MAPF(fs) == z3.Store(MAPF(f), k, Opt.some(v)), MAPF(fs)),
        all_([n], z3.Not(INK(Kl.knil, n)), INK(Kl.knil, n)),
        all_([b, k, n], INK(ks, n) == z3.Or(INK(b, n), n == k), INK(ks, n)),
        all_([a], FILT(Kl.knil, a) == Kl.knil, FILT(Kl.knil, a)),
        all_([b, k, a], FILT(ks, a) == z3.If(INK(a, k), FILT(b, a), Kl.ksnoc(FILT(b, a), k)), FILT(ks, a)),
        all_([a], APPK(a, Kl.knil) == a, APPK(a, Kl.knil)),
        all_([a, b, k], APPK(a, ks) == Kl.ksnoc(APPK(a, b), k), APPK(a, ks)),
        all_([m], SERK(Kl.knil, m) == EMPTY, SERK(Kl.knil, m)),
        all_([b, k, m], SERK(ks, m) == z3.If(Opt.is_some(z3.Select(m, k)), cat(SERK(b, m), field_text(k, Opt.oval(z3.Select(m, k)))),
                                              SERK(b, m)), SERK(ks, m)),
        JOINF(Sl.slnil) == EMPTY,
        all_([sl, k], JOINF(ss) == z3.If(sl == Sl.slnil, k, cat(JOINF(sl), lit(" "), k)), JOINF(ss)),
        SPANF(Sl.slnil) == Pl.plnil,
        all_([sl, k], SPANF(ss) == Pl.plsnoc(SPANF(sl),
                                             z3.Length(JOINF(sl)) + z3.If(sl == Sl.slnil, 0, 1), z3.Length(JOINF(ss))), SPANF(ss)),
        SERS(Tl.tnil) == Sl.slnil,
        all_([tl, t], SERS(Tl.tsnoc(tl, t)) == Sl.slsnoc(SERS(tl), ser(Tok.tname(t), order_of(Tok.tname(t), Tok.tfl(t)), MAPF(Tok.tfl(t)))),
             SERS(Tl.tsnoc(tl, t))),
    ]


# ------------------------------------------------------------- value models
class KeyList(Sym):
    """A list of keys: view ``term`` (Kl)."""

    def py_truth(self, I):
        return self.get("term") != Kl.knil

    def py_iter(self, I):
        return SnocIter(self.get("term"), Kl, "k", STR, Kl.knil, Kl.ksnoc, S)

    def py_contains(self, I, item):
        return INK(self.get("term"), seq(item))

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "append":
            self.set(I, "term", Kl.ksnoc(self.get("term"), seq(args[0])))
            return None
        if name == "copy":
            return I.sym(KeyList(term=self.get("term")))
        raise pydv.Unsupported("list.%s of a key list" % name)

    def py_add(self, I, other):
        return I.sym(KeyList(term=APPK(self.get("term"), keys_view(other))))

    def py_list(self, I):
        return I.sym(KeyList(term=self.get("term")))


class SnocIter(SIter):
    """Iteration over a snoc list: the state is the prefix already seen."""

    def __init__(self, term, sort, label, elem_sort, nil, snoc, wrap):
        self.term, self.sort, self.label, self.elem_sort, self.nil, self.snoc, self.wrap = \
            term, sort, label, elem_sort, nil, snoc, wrap

    def start(self, I):
        return self.nil

    def fresh(self, I):
        return I.ctx.fresh("prefix_" + self.label, self.sort)

    def done(self, I, state):
        return state == self.term

    def next(self, I, state):
        e = I.ctx.fresh("elem_" + self.label, self.elem_sort)
        value = self.wrap(e) if self.wrap is S else self.wrap(I, e)
        return value, self.snoc(state, e)


def keys_view(value):
    if isinstance(value, KeyList):
        return value.get("term")
    if isinstance(value, PList):
        t = Kl.knil
        for x in value.items:
            t = Kl.ksnoc(t, seq(x))
        return t
    raise pydv.Unsupported("not a list of keys: %r" % (value,))


class FieldMap(Sym):
    """A field dictionary: view ``term`` (Map)."""

    def py_contains(self, I, item):
        return Opt.is_some(z3.Select(self.get("term"), seq(item)))

    def py_getitem(self, I, index):
        o = z3.Select(self.get("term"), seq(index))
        if not I.ctx.decide(Opt.is_some(o)):
            raise pydv.PyRaise(pydv.ExcVal(KeyError, (index,)))
        return S(Opt.oval(o))

    def py_setitem(self, I, index, value):
        self.set(I, "term", z3.Store(self.get("term"), seq(index), Opt.some(seq(value))))

    def py_truth(self, I):
        return self.get("term") != z3.K(STR, Opt.none)

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "keys":
            return self
        if name == "get":
            o = z3.Select(self.get("term"), seq(args[0]))
            if I.ctx.decide(Opt.is_some(o)):
                return S(Opt.oval(o))
            return args[1] if len(args) > 1 else None
        raise pydv.Unsupported("dict.%s of a field map" % name)


def map_view(value):
    if isinstance(value, FieldMap):
        return value.get("term")
    if isinstance(value, PDict):
        t = z3.K(STR, Opt.none)
        for k, v in value.items.items():
            t = z3.Store(t, seq(k), Opt.some(seq(v)))
        return t
    raise pydv.Unsupported("not a field dictionary: %r" % (value,))


class TokenList(Sym):
    """The parser's token list: view ``term`` (Tl)."""

    def py_truth(self, I):
        return self.get("term") != Tl.tnil

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "append":
            obj = args[0]
            spec = Tl.tlast(St.toks(ghost_state(I)))
            check_token(I, obj, spec)
            self.set(I, "term", Tl.tsnoc(self.get("term"), spec))
            obj.frozen = True
            return None
        raise pydv.Unsupported("list.%s of the token list" % name)

    def py_iter(self, I):
        return SnocIter(self.get("term"), Tl, "tok", Tok, Tl.tnil, Tl.tsnoc, token_object)


def token_object(I, t):
    """A parsed token as an object (read only)."""
    cls = parser_module(I)["Token"]
    obj = I.new_obj(cls, {
        "name": S(Tok.tname(t)),
        "start": Tok.tstart(t),
        "end": Tok.tend(t),
        "order": I.sym(KeyList(term=KEYS(Tok.tfl(t)))),
        "members": I.sym(FieldMap(term=MAPF(Tok.tfl(t)))),
    }, "token")
    obj.frozen = obj.attrs["order"].frozen = obj.attrs["members"].frozen = True
    obj.tok = t
    return obj


def check_token(I, obj, spec):
    """The token object is exactly the token the text denotes."""
    if not isinstance(obj, Obj):
        raise pydv.Unsupported("append of %r to the token list" % (obj,))
    a = obj.attrs
    I.ctx.prove("appended token: name", seq(a["name"]) == Tok.tname(spec))
    I.ctx.prove("appended token: start", a["start"] == Tok.tstart(spec) if a["start"] is not None else z3.BoolVal(False))
    I.ctx.prove("appended token: end", a["end"] == Tok.tend(spec) if a["end"] is not None else z3.BoolVal(False))
    I.ctx.prove("appended token: field order", keys_view(a["order"]) == KEYS(Tok.tfl(spec)))
    I.ctx.prove("appended token: field values", map_view(a["members"]) == MAPF(Tok.tfl(spec)))


def toks_view(value):
    if isinstance(value, TokenList):
        return value.get("term")
    if isinstance(value, PList) and not value.items:
        return Tl.tnil
    raise pydv.Unsupported("not a token list: %r" % (value,))


class StrList(Sym):

    def py_truth(self, I):
        return self.get("term") != Sl.slnil

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "append":
            self.set(I, "term", Sl.slsnoc(self.get("term"), seq(args[0])))
            return None
        raise pydv.Unsupported("list.%s of strings" % name)

    def py_join(self, I, sep):
        if sep != " ":
            raise pydv.Unsupported("join with %r" % (sep,))
        return S(JOINF(self.get("term")))


class SpanList(Sym):

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_truth(self, I):
        return self.get("term") != Pl.plnil

    def py_method(self, I, name, args, kwargs):
        if name == "append":
            a, b = args[0]
            self.set(I, "term", Pl.plsnoc(self.get("term"), pydv.zint(a), pydv.zint(b)))
            return None
        raise pydv.Unsupported("list.%s of spans" % name)

    def py_tuple(self, I):
        return self

    def py_list(self, I):
        return I.sym(SpanList(term=self.get("term")))


def str_view(v):
    if isinstance(v, StrList):
        return v.get("term")
    if isinstance(v, PList):
        t = Sl.slnil
        for x in v.items:
            t = Sl.slsnoc(t, seq(x))
        return t
    raise pydv.Unsupported("not a list of strings: %r" % (v,))


def span_view(v):
    if isinstance(v, SpanList):
        return v.get("term")
    if isinstance(v, (PList, tuple)):
        t = Pl.plnil
        for a, b in (v.items if isinstance(v, PList) else v):
            t = Pl.plsnoc(t, pydv.zint(a), pydv.zint(b))
        return t
    raise pydv.Unsupported("not a list of spans: %r" % (v,))


class Orders(Sym):
    """An arbitrary mapping from token types to canonical orders."""

    def py_isinstance(self, I, cls):
        import collections.abc
        return cls in (dict, collections.abc.Mapping, collections.abc.Container, object)

    def py_dict(self, I, kw):
        if kw:
            raise pydv.Unsupported("dict(orders, ...)")
        return I.sym(Orders())

    def py_getattr(self, I, name):
        return pydv.Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "keys":
            return self
        if name == "get":
            if I.ctx.decide(HASORD(seq(args[0]))):
                return self.py_getitem(I, args[0])
            return args[1] if len(args) > 1 else None
        raise pydv.Unsupported("orders.%s" % name)

    def py_contains(self, I, item):
        return HASORD(seq(item))

    def py_truth(self, I):
        return I.ctx.fresh("orders_nonempty", BOOL)

    def py_getitem(self, I, index):
        if not I.ctx.decide(HASORD(seq(index))):
            raise pydv.PyRaise(pydv.ExcVal(KeyError, (index,)))
        k = I.sym(KeyList(term=CANON(seq(index))))
        k.frozen = True
        return k


# ------------------------------------------------------------------ parser
def parser_module(I):
    import tn.token_parser
    return tn.token_parser.__dict__


def eos(I):
    return parser_module(I)["EOS"]


def error_class(I=None):
    import tn.token_parser
    return tn.token_parser.TokenParseError


def parser_object(I):
    """A TokenParser loaded with an arbitrary non-empty text."""
    c = z3.Function("c", INT, INT)
    run = z3.Function("ST", INT, St)
    n = z3.Int("N")
    text = Text(c, n, on_read)
    obj = I.new_obj(parser_module(I)["TokenParser"], {}, "parser")
    I.globals_ghost.update(parser=obj, c=c, ST=run, N=n, text=text)
    define_run(I, c, run, n)
    return obj


def define_run(I, c, run, n):
    I.ctx.assume(run(0) == INIT)
    I.ctx.assume(n >= 0)
    absorb(I, 0)


def absorb(I, j):
    """Lemma "error states absorb" (see lemmas) up to the end of the text."""
    run, n = I.globals_ghost["ST"], I.globals_ghost["N"]
    I.ctx.assume(z3.Implies(z3.And(j >= 0, j <= n, St.mode(run(j)) == ERR), St.mode(run(n)) == ERR), False)


def on_read(I, j):
    """The definition of the run at a position that is read."""
    g = I.globals_ghost
    run, n, c = g["ST"], g["N"], g["c"]
    I.ctx.assume(z3.Implies(z3.And(j >= 0, j < n), steps_to(run(j), c(j), run(j + 1))), False)
    I.ctx.assume(z3.And(c(j) >= 0, c(j) <= pydv.MAXCHAR))
    absorb(I, j + 1)


def load_state(I, obj):
    """Arbitrary parser position inside the text."""
    g = I.globals_ghost
    index = I.ctx.fresh("index", INT)
    obj.attrs["text"] = g["text"]
    obj.attrs["index"] = index
    obj.attrs["orders"] = I.sym(Orders())
    if I.ctx.choose("end of text"):
        obj.attrs["char"] = eos(I)
        I.ctx.assume(index == g["N"] - 1)
    else:
        obj.attrs["char"] = Char(g["c"](index))
    I.ctx.assume(z3.And(index >= 0, index < g["N"]))
    on_read(I, index)
    I.ctx.assume(position_consistent(I))


def pos(I, obj=None):
    g = I.globals_ghost
    obj = obj or g["parser"]
    ch = obj.attrs["char"]
    if isinstance(ch, str) and ch == eos(I):
        return g["N"]
    return pydv.zint(obj.attrs["index"])


def ghost_state(I):
    return I.globals_ghost["ST"](pos(I))


def position_consistent(I, obj=None):
    """The automaton has read exactly the characters before the position."""
    g = I.globals_ghost
    return St.pos(g["ST"](pos(I, obj))) == pos(I, obj)


def wf(I, obj=None):
    """Class invariant of a loaded parser."""
    g = I.globals_ghost
    obj = obj or g["parser"]
    ch = obj.attrs["char"]
    index = obj.attrs["index"]
    yield "text is the parsed text", z3.BoolVal(obj.attrs["text"] is g["text"])
    yield "index is inside the text", z3.And(index >= 0, index < g["N"])
    if isinstance(ch, str) and ch == eos(I):
        yield "at the end the index is the last character", index == g["N"] - 1
    elif isinstance(ch, Char):
        yield "char is the character at index", ch.code == g["c"](index)
    else:
        yield "char is a character of the text", z3.BoolVal(False)


def havoc_position(obj_of):
    """(index, char) pair of an arbitrary later position."""

    def kind_char(L):
        I = L.I
        if I.ctx.choose("end of text"):
            return eos(I)
        return Char(I.ctx.fresh("char", INT))

    return kind_char


class ParserContract(Contract):

    def setup(self, I):
        obj = parser_object(I)
        load_state(I, obj)
        I.ctx.assume(self.requires(I))
        return [obj], {}

    def requires(self, I):
        raise NotImplementedError

    def pre(self, I, args, kwargs):
        for item in wf(I, args[0]):
            yield item
        yield "automaton state", self.requires(I)

    def snapshot(self, I, args, kwargs):
        return {"pos": pos(I), "st": ghost_state(I)}

    def frame(self, I, args, kwargs):
        return [(args[0], "index"), (args[0], "char")]

    def havoc(self, I, args, kwargs):
        obj = args[0]
        g = I.globals_ghost
        obj.attrs["index"] = I.ctx.fresh("index", INT)
        if I.ctx.choose("end of text"):
            obj.attrs["char"] = eos(I)
        else:
            obj.attrs["char"] = Char(I.ctx.fresh("char", INT))
        for _, formula in wf(I, obj):
            I.ctx.assume(formula)
        on_read(I, obj.attrs["index"])
        I.ctx.feasible_or_end()
        del g

    def rejected(self, I, old, args, kwargs, exc):
        g = I.globals_ghost
        yield "the text is malformed", St.mode(g["ST"](g["N"])) != OUT

    @property
    def raises(self):
        return {error_class(): type(self).rejected}

    def common(self, I, old):
        yield from wf(I)
        yield "moves forward", pos(I) >= old["pos"]
        yield "position", position_consistent(I)


def between(I):
    """Between tokens or between fields, with nothing half read."""
    s = ghost_state(I)
    return z3.Or(s == st(OUT, pos(I), St.toks(s)), s == st(FLD, pos(I), St.toks(s), St.name(s), St.start(s), St.fl(s)))


class ParseWs(ParserContract):
    target = "tn.token_parser:TokenParser.parse_ws"

    def requires(self, I):
        return between(I)

    @property
    def raises(self):
        return {}

    def result(self, I, args, kwargs):
        return I.ctx.fresh("more", BOOL)

    def post(self, I, old, args, kwargs, result):
        yield from self.common(I, old)
        ch = args[0].attrs["char"]
        at_end = isinstance(ch, str)
        yield "true unless the text is used up", z3.BoolVal(False) == result if at_end else pydv.zbool(result)
        if not at_end:
            yield "stops at a non-space", ch.code != ord(" ")
        s0, s1 = old["st"], ghost_state(I)
        yield "only spaces are skipped", s1 == St.st(St.mode(s0), pos(I), St.toks(s0), St.name(s0), St.start(s0), St.fl(s0), St.key(s0),
                                                     St.val(s0))


class ParserLoop(Loop):

    def assumes(self, L):
        on_read(L.I, L["self"].attrs["index"])
        return ()


class WsLoop(ParserLoop):
    havoc = {"not_eos": "bool"}

    def modifies(self, L):
        p = L["self"]
        yield p, "index", "int"
        yield p, "char", havoc_position(None)

    def enter(self, L):
        return {"pos0": pos(L.I), "st0": ghost_state(L.I)}

    def inv(self, L):
        I = L.I
        yield from wf(I)
        yield "flag", pydv.zbool(L["not_eos"]) == z3.BoolVal(not isinstance(L["self"].attrs["char"], str))
        s0, s1 = L.st0, ghost_state(I)
        yield "only spaces are skipped", s1 == St.st(St.mode(s0), pos(I), St.toks(s0), St.name(s0), St.start(s0), St.fl(s0), St.key(s0),
                                                     St.val(s0))
        yield "forward", pos(I) >= L.pos0

    def variant(self, L):
        return L.I.globals_ghost["N"] - pos(L.I)


class ParseKey(ParserContract):
    target = "tn.token_parser:TokenParser.parse_key"

    def requires(self, I):
        ch = I.globals_ghost["parser"].attrs["char"]
        if not isinstance(ch, Char):
            return z3.BoolVal(False)
        return z3.And(between(I), ch.code != ord(" "), z3.Or(St.mode(ghost_state(I)) == OUT, ch.code != ord("}")))

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("key", STR))

    def post(self, I, old, args, kwargs, result):
        yield from self.common(I, old)
        yield "the key is what was read", ghost_state(I) == key_state(old["st"], old["pos"], pos(I), seq(result))
        yield "not empty", z3.Length(seq(result)) > 0
        ch = args[0].attrs["char"]
        if not isinstance(ch, str):
            yield "the key is maximal", z3.Not(letter(ch.code))


def key_state(s0, p0, p1, key):
    return z3.If(St.mode(s0) == OUT, st(NAME, p1, St.toks(s0), key, p0), st(KEY, p1, St.toks(s0), St.name(s0), St.start(s0), St.fl(s0), key))


class KeyLoop(ParserLoop):
    havoc = {"key": "str"}

    def modifies(self, L):
        p = L["self"]
        yield p, "index", "int"
        yield p, "char", havoc_position(None)

    def enter(self, L):
        return {"pos0": pos(L.I), "st0": ghost_state(L.I)}

    def inv(self, L):
        I = L.I
        yield from wf(I)
        key = seq(L["key"])
        yield "key so far", z3.If(z3.Length(key) == 0, pos(I) == L.pos0, ghost_state(I) == key_state(L.st0, L.pos0, pos(I), key))
        yield "forward", pos(I) >= L.pos0

    def variant(self, L):
        return L.I.globals_ghost["N"] - pos(L.I)


class ParseValue(ParserContract):
    target = "tn.token_parser:TokenParser.parse_value"

    def requires(self, I):
        s = ghost_state(I)
        return s == st(VAL, pos(I), St.toks(s), St.name(s), St.start(s), St.fl(s), St.key(s))

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("value", STR))

    def post(self, I, old, args, kwargs, result):
        yield from self.common(I, old)
        s0 = old["st"]
        yield "the decoded value", ghost_state(I) == st(VAL, pos(I), St.toks(s0), St.name(s0), St.start(s0), St.fl(s0), St.key(s0), seq(result))
        ch = args[0].attrs["char"]
        yield "stops at the closing quote", z3.BoolVal(False) if isinstance(ch, str) else ch.code == ord('"')


class ValueLoop(ParserLoop):
    havoc = {"value": "str"}

    def modifies(self, L):
        p = L["self"]
        yield p, "index", "int"
        yield p, "char", havoc_position(None)

    def enter(self, L):
        return {"pos0": pos(L.I), "st0": ghost_state(L.I)}

    def inv(self, L):
        I = L.I
        yield from wf(I)
        s0 = L.st0
        yield "value so far", ghost_state(I) == st(VAL, pos(I), St.toks(s0), St.name(s0), St.start(s0), St.fl(s0), St.key(s0), seq(L["value"]))
        yield "forward", pos(I) >= L.pos0

    def variant(self, L):
        return L.I.globals_ghost["N"] - pos(L.I)


class Parse(Contract):
    """parse(text): exactly the tokens of the text, or the parse error."""
    target = "tn.token_parser:TokenParser.parse"

    def setup(self, I):
        obj = parser_object(I)
        obj.attrs["orders"] = I.sym(Orders())
        return [obj, I.globals_ghost["text"]], {}

    def frame(self, I, args, kwargs):
        return [(args[0], f) for f in ("index", "char", "text", "tokens")]

    def havoc(self, I, args, kwargs):
        obj = args[0]
        obj.attrs["text"] = args[1]
        obj.attrs["index"] = I.ctx.fresh("index", INT)
        obj.attrs["char"] = pydv.POISON
        obj.attrs["tokens"] = I.sym(TokenList(term=I.ctx.fresh("tokens", Tl)))

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        final = g["ST"](g["N"])
        yield "an accepted text is well formed", z3.And(g["N"] > 0, St.mode(final) == OUT)
        yield "the tokens are exactly those the text denotes", toks_view(args[0].attrs["tokens"]) == St.toks(final)

    def rejected(self, I, old, args, kwargs, exc):
        g = I.globals_ghost
        yield "a rejected text is malformed", z3.Or(g["N"] == 0, St.mode(g["ST"](g["N"])) != OUT)

    @property
    def raises(self):
        return {error_class(): Parse.rejected}


class ParseOuter(ParserLoop):

    def modifies(self, L):
        p = L["self"]
        yield p, "index", "int"
        yield p, "char", havoc_position(None)
        yield p, "tokens", lambda L: L.I.sym(TokenList(term=L.I.ctx.fresh("tokens", Tl)))

    def inv(self, L):
        I = L.I
        yield from wf(I)
        s = ghost_state(I)
        yield "between tokens", s == st(OUT, pos(I), St.toks(s))
        yield "tokens so far", toks_view(L["self"].attrs["tokens"]) == St.toks(s)

    def variant(self, L):
        return L.I.globals_ghost["N"] - pos(L.I)


class ParseInner(ParserLoop):
    havoc = {"closed": "bool"}

    def modifies(self, L):
        p = L["self"]
        yield p, "index", "int"
        yield p, "char", havoc_position(None)
        token = L.find("Token")
        yield token, "order", lambda L: L.I.sym(KeyList(term=L.I.ctx.fresh("order", Kl)))
        yield token, "members", lambda L: L.I.sym(FieldMap(term=L.I.ctx.fresh("members", Map)))

    def enter(self, L):
        return {"pos0": pos(L.I), "st0": ghost_state(L.I)}

    def inv(self, L):
        I = L.I
        yield from wf(I)
        s, s0 = ghost_state(I), L.st0
        yield "inside the token", s == st(FLD, pos(I), St.toks(s0), St.name(s0), St.start(s0), St.fl(s))
        yield "forward", pos(I) >= L.pos0
        token = L.find("Token")
        yield "fields so far: order", keys_view(token.attrs["order"]) == KEYS(St.fl(s))
        yield "fields so far: values", map_view(token.attrs["members"]) == MAPF(St.fl(s))
        yield "not closed", z3.Not(pydv.zbool(L["closed"]))

    def variant(self, L):
        return L.I.globals_ghost["N"] - pos(L.I)


# ------------------------------------------------------------- serialization
class EscapeValue(Contract):
    target = "tn.token_parser:escape_value"

    def setup(self, I):
        return [S(z3.Const("value", STR))], {}

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("escaped", STR))

    def post(self, I, old, args, kwargs, result):
        yield "escapes backslashes and quotes", seq(result) == ESCV(seq(args[0]))


class TokenString(Contract):
    target = "tn.token_parser:Token.string"

    def setup(self, I):
        t = z3.Const("tok", Tok)
        return [token_object(I, t), I.sym(Orders())], {}

    def pre(self, I, args, kwargs):
        yield "a parsed token", z3.BoolVal(hasattr(args[0], "tok"))
        yield "the configured orders", z3.BoolVal(isinstance(args[1], Orders))

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("serialized", STR))

    def post(self, I, old, args, kwargs, result):
        t = args[0].tok
        f = Tok.tfl(t)
        yield "every field once, in the prescribed order, escaped", seq(result) == ser(Tok.tname(t), order_of(Tok.tname(t), f), MAPF(f))


class StringLoop(Loop):
    havoc = {"output": "str"}

    def enter(self, L):
        return {"output0": seq(L["output"])}

    def inv(self, L):
        m = map_view(L["self"].attrs["members"])
        yield "fields written so far", seq(L["output"]) == cat(L.output0, SERK(L.state, m))


def extra_fields(I, frame, node, first):
    """``[key for key in self.order if key not in canonical_order]``: the
    accumulator equals FILT(prefix) for an arbitrary prefix."""
    term = keys_view(first)
    try:
        canon = keys_view(frame.lookup_local("canonical_order"))
    except KeyError:
        raise pydv.Unsupported("the comprehension contract needs canonical_order")
    return snoc_comprehension(I, frame, node, KeyList, term, lambda p: FILT(p, canon))


def snoc_comprehension(I, frame, node, model, term, spec):
    """One comprehension with an explicit accumulator specification."""
    gen = node.generators[0]
    if len(node.generators) != 1:
        raise pydv.Unsupported("nested comprehension")
    I.ctx.prove("comprehension: empty prefix", spec(Kl.knil) == Kl.knil)
    if not I.ctx.choose("arbitrary element"):
        return I.sym(model(term=spec(term)))
    p, e = I.ctx.fresh("prefix", Kl), I.ctx.fresh("elem", STR)
    inner = pydv.Frame(frame.func, {}, frame)
    I.frames.append(inner)
    I.assign(gen.target, S(e))
    acc = spec(p)
    if all(I.truth_decide(I.eval(c)) for c in gen.ifs):
        acc = Kl.ksnoc(acc, seq(I.eval(node.elt)))
    I.ctx.prove("comprehension: one more element", acc == spec(Kl.ksnoc(p, e)))
    raise pydv.PathEnd()


class Reorder(Contract):
    target = "tn.token_parser:TokenParser.reorder_with_spans"

    def setup(self, I):
        obj = parser_object(I)
        obj.attrs["orders"] = I.sym(Orders())
        return [obj, I.globals_ghost["text"]], {}

    def frame(self, I, args, kwargs):
        return [(args[0], f) for f in ("index", "char", "text", "tokens")]

    def havoc(self, I, args, kwargs):
        Parse.havoc(self, I, args, kwargs)

    def result(self, I, args, kwargs):
        return (S(I.ctx.fresh("reordered", STR)), I.sym(SpanList(term=I.ctx.fresh("spans", Pl))))

    def spec(self, I):
        g = I.globals_ghost
        return SERS(St.toks(g["ST"](g["N"])))

    def post(self, I, old, args, kwargs, result):
        g = I.globals_ghost
        yield from Parse.post(self, I, old, args, kwargs, None)
        text, spans = result
        yield "the tokens in their order, canonically serialized, one space apart", seq(text) == JOINF(self.spec(I))
        yield "one exact span per token", span_view(spans) == SPANF(self.spec(I))
        del g

    @property
    def raises(self):
        return {error_class(): Parse.rejected}


class ReorderLoop(Loop):
    havoc = {
        "serialized": lambda L: L.I.sym(StrList(term=L.I.ctx.fresh("serialized", Sl))),
        "spans": lambda L: L.I.sym(SpanList(term=L.I.ctx.fresh("spans", Pl))),
        "offset": "int",
    }

    def modifies(self, L):
        # the lists before the loop are only read through their views
        return ()

    def inv(self, L):
        yield "serialized so far", str_view(L["serialized"]) == SERS(L.state)
        yield "offset is the length written so far", pydv.zint(L["offset"]) == z3.Length(JOINF(SERS(L.state)))
        yield "spans so far", span_view(L["spans"]) == SPANF(SERS(L.state))


class ReorderText(Reorder):
    target = "tn.token_parser:TokenParser.reorder"

    def result(self, I, args, kwargs):
        return S(I.ctx.fresh("reordered", STR))

    def post(self, I, old, args, kwargs, result):
        yield "the reordered text", seq(result) == JOINF(self.spec(I))


class TokenInit(Contract):
    """A new token has no fields."""
    target = "tn.token_parser:Token.__init__"

    def setup(self, I):
        obj = I.new_obj(parser_module(I)["Token"], {}, "token")
        return [obj, S(z3.Const("name", STR)), z3.Int("start")], {}

    def frame(self, I, args, kwargs):
        return [(args[0], "*")]

    def post(self, I, old, args, kwargs, result):
        a = args[0].attrs
        yield "name", seq(a["name"]) == seq(args[1])
        yield "start", pydv.zint(a["start"]) == args[2]
        yield "no fields", z3.And(keys_view(a["order"]) == KEYS(Fl.fnil), map_view(a["members"]) == MAPF(Fl.fnil))


class TokenAppend(Contract):
    """One more field, or the error for a repeated one."""
    target = "tn.token_parser:Token.append"

    def setup(self, I):
        f = z3.Const("f", Fl)
        obj = I.new_obj(parser_module(I)["Token"], {
            "name": S(z3.Const("name", STR)),
            "order": I.sym(KeyList(term=KEYS(f))),
            "members": I.sym(FieldMap(term=MAPF(f))),
        }, "token")
        obj.fields = f
        return [obj, S(z3.Const("key", STR)), S(z3.Const("value", STR))], {}

    def frame(self, I, args, kwargs):
        a = args[0].attrs
        return [(args[0], "*"), (a["order"], "term"), (a["members"], "term")]

    def post(self, I, old, args, kwargs, result):
        f, k, x = args[0].fields, seq(args[1]), seq(args[2])
        a = args[0].attrs
        yield "the field is new", z3.Not(has(f, k))
        yield "the field is last in order", keys_view(a["order"]) == KEYS(Fl.fsnoc(f, k, x))
        yield "the field has the value", map_view(a["members"]) == MAPF(Fl.fsnoc(f, k, x))

    def repeated(self, I, old, args, kwargs, exc):
        yield "the field is repeated", has(args[0].fields, seq(args[1]))

    @property
    def raises(self):
        return {error_class(): TokenAppend.repeated}


class ParserInit(Contract):
    """The parser uses exactly the given orders."""

    def __init__(self, kind):
        self.kind = kind
        self.target = "tn.token_parser:TokenParser.__init__"

    def setup(self, I):
        obj = I.new_obj(parser_module(I)["TokenParser"], {}, "parser")
        arg = I.sym(Orders()) if self.kind == "mapping" else self.kind
        return [obj, arg], {}

    def frame(self, I, args, kwargs):
        return [(args[0], "*")]

    def post(self, I, old, args, kwargs, result):
        orders = args[0].attrs.get("orders")
        if self.kind == "mapping":
            yield "orders are the given ones", z3.BoolVal(isinstance(orders, Orders))
        else:
            table = {"tn": "TN_ORDERS", "itn": "ITN_ORDERS", "en_tn": "EN_TN_ORDERS"}[self.kind]
            yield "orders are the schema's", z3.BoolVal(orders is parser_module(I)[table])


def install(v):
    v.heavy |= {"ST"}
    v.axioms += base_axioms()
    value = z3.Const("v", STR)
    r = pydv.replace_fn('"', '\\"')(pydv.replace_fn("\\", "\\\\")(value))
    # lemma "replacing backslashes, then quotes, escapes" (proved in lemmas)
    v.axioms.append(z3.ForAll([value], r == ESCV(value), patterns=[r]))
    contracts = [ParseWs(), ParseKey(), ParseValue(), Parse(), EscapeValue(), TokenString(), Reorder(), ReorderText()]
    for c in contracts:
        v.contract(c)
    t = "tn.token_parser:"
    v.loop(t + "TokenParser.parse_ws", 0, WsLoop())
    v.loop(t + "TokenParser.parse_key", 0, KeyLoop())
    v.loop(t + "TokenParser.parse_value", 0, ValueLoop())
    v.loop(t + "TokenParser.parse", 0, ParseOuter())
    v.loop(t + "TokenParser.parse", 1, ParseInner())
    v.loop(t + "Token.string", 0, StringLoop())
    v.loops[(t + "Token.string", "comp0")] = extra_fields
    v.loop(t + "TokenParser.reorder_with_spans", 0, ReorderLoop())
    return {c.target: c for c in contracts}


PARSING = ("TokenParser.parse_ws", "TokenParser.parse_key", "TokenParser.parse_value", "TokenParser.parse")
SERIALIZING = ("escape_value", "Token.string")
REORDERING = ("TokenParser.reorder_with_spans", "TokenParser.reorder")


def prove(v, names):
    contracts = install(v)
    for name in names:
        v.verify(contracts["tn.token_parser:" + name])
    return contracts


def prove_construction(v):
    """Token and parser constructors (their bodies are inlined elsewhere)."""
    for c in (TokenInit(), TokenAppend()):
        v.verify(c)
    for kind in ("mapping", "tn", "itn", "en_tn"):
        c = ParserInit(kind)
        v.verify(c)
        v.functions[-1] = ("%s(%s)" % (c.target, kind),) + tuple(v.functions[-1][1:])


def order_tables():
    """Every canonical order a production pipeline or schema name uses."""
    import importlib
    import tn.token_parser as m
    out = [("tn.token_parser", n, getattr(m, n)) for n in ("TN_ORDERS", "ITN_ORDERS", "EN_TN_ORDERS")]
    for name in ("tn.chinese.normalizer", "tn.english.normalizer", "tn.japanese.normalizer", "itn.chinese.inverse_normalizer",
                 "itn.english.inverse_normalizer", "itn.japanese.inverse_normalizer"):
        mod = importlib.import_module(name)
        out.append((name, "TOKEN_ORDERS", mod.TOKEN_ORDERS))
    return out


def prove_tables(v):
    """The hypothesis of the permutation theorem: distinct canonical keys."""
    v.current = "order tables"
    for module, name, table in order_tables():
        for key, order in table.items():
            ok = len(set(order)) == len(order) and all(isinstance(k, str) for k in order)
            v.record("%s.%s[%r] has distinct keys" % (module, name, key), ok, 0, "" if ok else repr(order))
