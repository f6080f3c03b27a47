"""Lemmas over the specification of the wire format (C01-C04).

Every lemma is an obligation of its own; inductions are written as base and
step obligations with the induction hypothesis as an explicit instance.  What
is left to the reader is only the induction rule itself.
"""
import z3

from lib import pydv
from lib.pydv import BOOL, INT, STR, cat, lit
from contracts.token_parser import (CANON, EMPTY, ERR, ERROR, ESC, ESCV, FILT, FLD, HASORD, INIT, INK, JOINF, KEY, KEYS, MAPF, N2, NAME, OUT, SERK,
                                    SPANF, VAL, APPK, Fl, Kl, Map, Opt, Pl, Sl, St, Tl, Tok, escape_char, field_text, has, letter, order_of, rules, ser,
                                    st, steps_to)

RUN = z3.Function("RUN", St, STR, St)
VALIDK = z3.Function("VALIDK", STR, BOOL)
DISTF = z3.Function("DISTF", Fl, BOOL)  # pairwise distinct keys
VALIDF = z3.Function("VALIDF", Fl, BOOL)
DISTK = z3.Function("DISTK", Kl, BOOL)
SERF = z3.Function("SERF", Fl, STR)  # ' k: "v"' for each field
ZIPF = z3.Function("ZIPF", Kl, Map, Fl)  # fields of a key order
RESTR = z3.Function("RESTR", Kl, Map, Kl)  # keys that are fields
SERO = z3.Function("SERO", Tl, Sl)  # serialized tokens, original order
RETOK = z3.Function("RETOK", Tl, Tl)  # the same tokens at their new places
GOODT = z3.Function("GOODT", Tl, BOOL)
LASTEND = z3.Function("LASTEND", Tl, INT)


def token_text(name, f):
    return cat(name, lit(" {"), SERF(f), lit(" }"))


def definitions():
    f = z3.Const("f", Fl)
    k, v = z3.Consts("k v", STR)
    b = z3.Const("b", Kl)
    m = z3.Const("m", Map)
    tl = z3.Const("tl", Tl)
    t = z3.Const("t", Tok)
    fs = Fl.fsnoc(f, k, v)
    ks = Kl.ksnoc(b, k)
    ts = Tl.tsnoc(tl, t)

    def all_(vs, body, pat):
        return z3.ForAll(vs, body, patterns=[pat])

    some = Opt.is_some(z3.Select(m, k))
    return [
        DISTF(Fl.fnil),
        all_([f, k, v], DISTF(fs) == z3.And(DISTF(f), z3.Not(has(f, k))), DISTF(fs)),
        VALIDF(Fl.fnil),
        all_([f, k, v], VALIDF(fs) == z3.And(VALIDF(f), VALIDK(k)), VALIDF(fs)),
        DISTK(Kl.knil),
        all_([b, k], DISTK(ks) == z3.And(DISTK(b), z3.Not(INK(b, k))), DISTK(ks)),
        SERF(Fl.fnil) == EMPTY,
        all_([f, k, v], SERF(fs) == cat(SERF(f), field_text(k, v)), SERF(fs)),
        all_([m], ZIPF(Kl.knil, m) == Fl.fnil, ZIPF(Kl.knil, m)),
        all_([b, k, m], ZIPF(ks, m) == z3.If(some, Fl.fsnoc(ZIPF(b, m), k, Opt.oval(z3.Select(m, k))), ZIPF(b, m)), ZIPF(ks, m)),
        all_([m], RESTR(Kl.knil, m) == Kl.knil, RESTR(Kl.knil, m)),
        all_([b, k, m], RESTR(ks, m) == z3.If(some, Kl.ksnoc(RESTR(b, m), k), RESTR(b, m)), RESTR(ks, m)),
        SERO(Tl.tnil) == Sl.slnil,
        all_([tl, t], SERO(ts) == Sl.slsnoc(SERO(tl), token_text(Tok.tname(t), Tok.tfl(t))), SERO(ts)),
        RETOK(Tl.tnil) == Tl.tnil,
        all_([tl, t], RETOK(ts) == Tl.tsnoc(
            RETOK(tl),
            Tok.tok(Tok.tname(t), z3.Length(JOINF(SERO(tl))) + z3.If(SERO(tl) == Sl.slnil, 0, 1), z3.Length(JOINF(SERO(ts))), Tok.tfl(t))), RETOK(ts)),
        GOODT(Tl.tnil),
        LASTEND(Tl.tnil) == 0,
        all_([tl, t], LASTEND(ts) == Tok.tend(t), LASTEND(ts)),
        all_([tl, t], GOODT(ts) == z3.And(GOODT(tl), Tok.tstart(t) >= LASTEND(tl), Tok.tend(t) > Tok.tstart(t), DISTF(Tok.tfl(t)), VALIDF(Tok.tfl(t)),
                                          VALIDK(Tok.tname(t))), GOODT(ts)),
    ]


def unfold(s, x, text):
    """RUN definition along the concrete characters ``text`` after ``x``."""
    out = []
    cur = x
    for c in text:
        code = c if isinstance(c, z3.ExprRef) else z3.IntVal(ord(c))
        nxt = cat(cur, z3.Unit(code)) if cur is not EMPTY else z3.Unit(code)
        out.append(steps_to(RUN(s, cur), code, RUN(s, nxt)))
        cur = nxt
    return out, cur


def good(s):
    """Invariant of every reachable automaton state."""
    m = St.mode(s)
    opened = z3.And(m >= NAME, m < ERR)
    keyed = z3.And(m >= KEY, m < ERR)
    return z3.And(
        m >= OUT, m <= ERR, DISTF(St.fl(s)), VALIDF(St.fl(s)), GOODT(St.toks(s)), St.pos(s) >= 0,
        z3.Implies(opened, z3.And(VALIDK(St.name(s)), LASTEND(St.toks(s)) <= St.start(s), St.start(s) < St.pos(s))),
        z3.Implies(m == OUT, LASTEND(St.toks(s)) <= St.pos(s)), z3.Implies(keyed, VALIDK(St.key(s))))


def validk_def(k, c):
    return VALIDK(cat(k, z3.Unit(c))) == z3.And(letter(c), z3.Or(k == EMPTY, VALIDK(k)))


def grammar(v):
    """The automaton is a total deterministic machine with an absorbing error."""
    s, t, t2 = z3.Consts("s t t2", St)
    c = z3.Int("c")
    applicable = [z3.And(St.mode(s) == m, g) for m, g, _ in rules(s, c)]
    in_range = z3.And(St.mode(s) >= OUT, St.mode(s) < ERR)
    v.lemma("grammar: exactly one rule applies to each state and character", [in_range], z3.PbEq([(a, 1) for a in applicable], 1))
    v.lemma("grammar: error states absorb", [St.mode(s) == ERR, steps_to(s, c, t)], St.mode(t) == ERR)
    v.lemma("grammar: the next state is unique", [steps_to(s, c, t), steps_to(s, c, t2)], t == t2)
    v.lemma("grammar: one character is consumed", [steps_to(s, c, t), St.mode(t) != ERR], St.pos(t) == St.pos(s) + 1)


def run_concat(v):
    s = z3.Const("s", St)
    x, y = z3.Consts("x y", STR)
    c = z3.Int("c")
    v.lemma("RUN over a concatenation: base", [RUN(s, EMPTY) == s, RUN(RUN(s, x), EMPTY) == RUN(s, x)], RUN(s, cat(x, EMPTY)) == RUN(RUN(s, x), EMPTY))
    a = cat(x, y)
    v.lemma("RUN over a concatenation: step", [
        RUN(s, a) == RUN(RUN(s, x), y),
        steps_to(RUN(s, a), c, RUN(s, cat(a, z3.Unit(c)))),
        steps_to(RUN(RUN(s, x), y), c, RUN(RUN(s, x), cat(y, z3.Unit(c)))),
    ], RUN(s, cat(x, cat(y, z3.Unit(c)))) == RUN(RUN(s, x), cat(y, z3.Unit(c))))


def escape_lemmas(v):
    """replace() twice is the character-wise escape."""
    r1, r2 = pydv.replace_fn("\\", "\\\\"), pydv.replace_fn('"', '\\"')
    x, y = z3.Consts("x y", STR)
    c = z3.Int("c")

    def hom(r, char, new, a, d):
        return r(cat(a, z3.Unit(d)) if a is not EMPTY else z3.Unit(d)) == (cat(r(a), z3.If(d == ord(char), lit(new), z3.Unit(d))))

    v.lemma("replace distributes over concatenation: base", [r2(EMPTY) == EMPTY], r2(cat(x, EMPTY)) == cat(r2(x), r2(EMPTY)))
    v.lemma("replace distributes over concatenation: step", [
        r2(cat(x, y)) == cat(r2(x), r2(y)),
        r2(cat(x, y, z3.Unit(c))) == cat(r2(cat(x, y)), z3.If(c == ord('"'), lit('\\"'), z3.Unit(c))),
        hom(r2, '"', '\\"', y, c),
    ], r2(cat(x, cat(y, z3.Unit(c)))) == cat(r2(x), r2(cat(y, z3.Unit(c)))))
    v.lemma("replacing backslashes, then quotes, escapes: base",
            [r1(EMPTY) == EMPTY, r2(EMPTY) == EMPTY, ESCV(EMPTY) == EMPTY], r2(r1(EMPTY)) == ESCV(EMPTY))
    bs = z3.IntVal(ord("\\"))
    v.lemma("replacing backslashes, then quotes, escapes: step", [
        r2(r1(x)) == ESCV(x),
        hom(r1, "\\", "\\\\", x, c),
        ESCV(cat(x, z3.Unit(c))) == cat(ESCV(x), escape_char(c)),
        r2(EMPTY) == EMPTY,
        hom(r2, '"', '\\"', EMPTY, c),
        hom(r2, '"', '\\"', EMPTY, bs),
        r2(cat(z3.Unit(bs), z3.Unit(bs))) == cat(r2(z3.Unit(bs)), z3.Unit(bs)),
        r2(cat(r1(x), z3.Unit(c))) == cat(r2(r1(x)), r2(z3.Unit(c))),
        r2(cat(r1(x), lit("\\\\"))) == cat(r2(r1(x)), r2(lit("\\\\"))),
    ], r2(r1(cat(x, z3.Unit(c)))) == ESCV(cat(x, z3.Unit(c))))


def round_trip(v):
    toks = z3.Const("toks", Tl)
    name, k, x, v0 = z3.Consts("name k x v0", STR)
    p, start, c = z3.Ints("p start c")
    f, f0 = z3.Consts("f f0", Fl)

    # a value
    s = st(VAL, p, toks, name, start, f, k, v0)
    ev = ESCV(x)
    v.lemma("reading an escaped value decodes it: base", [RUN(s, EMPTY) == s, ESCV(EMPTY) == EMPTY],
            RUN(s, ESCV(EMPTY)) == st(VAL, p, toks, name, start, f, k, cat(v0, EMPTY)))
    hyps = [
        RUN(s, ev) == st(VAL, p + z3.Length(ev), toks, name, start, f, k, cat(v0, x)),
        ESCV(cat(x, z3.Unit(c))) == cat(ev, escape_char(c)),
    ]
    for chars in ("\\\\", '\\"', [c]):
        more, _ = unfold(s, ev, chars)
        hyps += more
    full = ESCV(cat(x, z3.Unit(c)))
    v.lemma("reading an escaped value decodes it: step", hyps,
            RUN(s, full) == st(VAL, p + z3.Length(full), toks, name, start, f, k, cat(v0, x, z3.Unit(c))))

    # keys and names
    for mode, what in ((FLD, "key"), (OUT, "name")):
        s = st(FLD, p, toks, name, start, f) if mode == FLD else st(OUT, p, toks)

        def after(text):
            n = z3.Length(text)
            return st(KEY, p + n, toks, name, start, f, text) if mode == FLD else st(NAME, p + n, toks, text, p)

        one = z3.Unit(c)
        v.lemma("reading a %s: base" % what, [RUN(s, EMPTY) == s, steps_to(RUN(s, EMPTY), c, RUN(s, one)), letter(c)], RUN(s, one) == after(one))
        v.lemma("reading a %s: step" % what, [
            RUN(s, k) == after(k),
            steps_to(RUN(s, k), c, RUN(s, cat(k, one))),
            letter(c),
        ], RUN(s, cat(k, one)) == after(cat(k, one)))

    # one field ' k: "v"', after the opening brace or after another field
    val = z3.Const("val", STR)
    fs = Fl.fsnoc(f, k, val)
    text = field_text(k, val)
    for mode, what in ((N2, "the first field"), (FLD, "a further field")):
        s = st(N2, p, toks, name, start) if mode == N2 else st(FLD, p, toks, name, start, f)
        fields = Fl.fnil if mode == N2 else f
        s0 = st(FLD, p + 1, toks, name, start, fields)
        s1 = st(KEY, p + 1 + z3.Length(k), toks, name, start, fields, k)
        sv = st(VAL, p + z3.Length(k) + 4, toks, name, start, fields, k)
        sv2 = st(VAL, p + z3.Length(k) + 4 + z3.Length(ESCV(val)), toks, name, start, fields, k, val)
        h0, t0 = unfold(s, EMPTY, " ")
        h1, t1 = unfold(s1, EMPTY, ': "')
        h2, t2 = unfold(sv2, EMPTY, '"')
        v.lemma("reading %s" % what, h0 + h1 + h2 + [
            z3.Not(has(fields, k)),
            RUN(s, EMPTY) == s, RUN(s0, k) == s1, RUN(s1, EMPTY) == s1, RUN(sv2, EMPTY) == sv2,
            RUN(sv, ESCV(val)) == sv2,
            RUN(s, text) == RUN(RUN(RUN(RUN(RUN(s, t0), k), t1), ESCV(val)), t2),
        ], RUN(s, text) == st(FLD, p + z3.Length(text), toks, name, start, Fl.fsnoc(fields, k, val)))

    # all fields
    s = st(N2, p, toks, name, start)

    def after_fields(g):
        q = p + z3.Length(SERF(g))
        return z3.If(g == Fl.fnil, st(N2, q, toks, name, start), st(FLD, q, toks, name, start, g))

    v.lemma("reading the fields: base", [RUN(s, EMPTY) == s], RUN(s, SERF(Fl.fnil)) == after_fields(Fl.fnil))
    s2 = after_fields(f)
    read_field = z3.Implies(z3.And(z3.Not(has(f, k)), VALIDK(k)),
                            RUN(s2, text) == st(FLD, St.pos(s2) + z3.Length(text), toks, name, start, fs))
    v.lemma("reading the fields: step", [
        z3.Implies(z3.And(DISTF(f), VALIDF(f)), RUN(s, SERF(f)) == s2),
        read_field,
        RUN(s, cat(SERF(f), text)) == RUN(RUN(s, SERF(f)), text),
        DISTF(fs), VALIDF(fs),
    ], RUN(s, SERF(fs)) == after_fields(fs))

    # one token
    s = st(OUT, p, toks)
    n1 = st(NAME, p + z3.Length(name), toks, name, p)
    n2 = st(N2, p + z3.Length(name) + 2, toks, name, p)
    q = p + z3.Length(name) + 2 + z3.Length(SERF(f))
    fin = z3.If(f == Fl.fnil, st(N2, q, toks, name, p), st(FLD, q, toks, name, p, f))
    h1, t1 = unfold(n1, EMPTY, " {")
    h2, t2 = unfold(fin, EMPTY, " }")
    text = token_text(name, f)
    after = st(OUT, p + z3.Length(text), Tl.tsnoc(toks, Tok.tok(name, p, p + z3.Length(text), f)))
    v.lemma("reading one token", h1 + h2 + [
        RUN(s, name) == n1, RUN(n1, EMPTY) == n1, RUN(fin, EMPTY) == fin,
        RUN(n2, SERF(f)) == fin,
        RUN(s, cat(name, t1, SERF(f), t2)) == RUN(RUN(RUN(RUN(s, name), t1), SERF(f)), t2),
    ], RUN(s, text) == after)

    # the stream
    t = z3.Const("t", Tok)
    ts = Tl.tsnoc(toks, t)
    tt = token_text(Tok.tname(t), Tok.tfl(t))
    head = JOINF(SERO(toks))
    old = st(OUT, z3.Length(head), RETOK(toks))
    sp = st(OUT, z3.Length(head) + 1, RETOK(toks))

    def token_after(s0):
        q = St.pos(s0)
        return st(OUT, q + z3.Length(tt), Tl.tsnoc(St.toks(s0), Tok.tok(Tok.tname(t), q, q + z3.Length(tt), Tok.tfl(t))))

    h1, t1 = unfold(old, EMPTY, " ")
    v.lemma("reading a stream: base", [RUN(INIT, EMPTY) == INIT], RUN(INIT, JOINF(SERO(Tl.tnil))) == st(OUT, 0, RETOK(Tl.tnil)))
    v.lemma("reading a stream: step", h1 + [
        RUN(INIT, head) == old, RUN(old, EMPTY) == old, RUN(INIT, EMPTY) == INIT,
        (SERO(toks) == Sl.slnil) == (toks == Tl.tnil),
        RUN(old, tt) == token_after(old), RUN(sp, tt) == token_after(sp), RUN(INIT, tt) == token_after(INIT),
        RUN(INIT, cat(head, lit(" "), tt)) == RUN(RUN(RUN(INIT, head), lit(" ")), tt),
    ], RUN(INIT, JOINF(SERO(ts))) == st(OUT, z3.Length(JOINF(SERO(ts))), RETOK(ts)))
    v.lemma("a serialized stream is empty only without tokens", [], (SERO(ts) == Sl.slnil) == (ts == Tl.tnil))


def keys_lemmas(v):
    """Dictionary and field list agree; serialization uses only the fields."""
    f = z3.Const("f", Fl)
    k, x, k2, v2 = z3.Consts("k x k2 v2", STR)
    m = z3.Const("m", Map)
    b = z3.Const("b", Kl)
    o = z3.Const("o", Opt)
    fs = Fl.fsnoc(f, k, x)
    v.lemma("keys and dictionary agree: base", [], has(Fl.fnil, k2) == INK(KEYS(Fl.fnil), k2))
    v.lemma("keys and dictionary agree: step", [has(f, k2) == INK(KEYS(f), k2)], has(fs, k2) == INK(KEYS(fs), k2))
    bs = Kl.ksnoc(b, k)
    m2 = z3.Store(m, k2, Opt.some(v2))
    for fn, what in ((SERK, "serialization"), (ZIPF, "selection")):
        v.lemma("%s ignores other keys: base" % what, [], fn(Kl.knil, m2) == fn(Kl.knil, m))
        v.lemma("%s ignores other keys: step" % what, [
            z3.Implies(z3.Not(INK(b, k2)), fn(b, m2) == fn(b, m)),
            z3.Not(INK(bs, k2)),
        ], fn(bs, m2) == fn(bs, m))
    # original order: SERK(KEYS f) is the plain serialization, ZIPF gives f
    for fn, plain, what in ((SERK, SERF, "serialization in original order"), (ZIPF, lambda g: g, "fields in original order")):
        v.lemma("%s: base" % what, [], fn(KEYS(Fl.fnil), MAPF(Fl.fnil)) == plain(Fl.fnil))
        v.lemma("%s: step" % what, [
            z3.Implies(DISTF(f), fn(KEYS(f), MAPF(f)) == plain(f)),
            z3.Implies(z3.Not(INK(KEYS(f), k)), fn(KEYS(f), z3.Store(MAPF(f), k, Opt.some(x))) == fn(KEYS(f), MAPF(f))),
            has(f, k) == INK(KEYS(f), k),
            DISTF(fs),
        ], fn(KEYS(fs), MAPF(fs)) == plain(fs))
    v.lemma("serialization in any order: base", [], SERK(Kl.knil, m) == SERF(ZIPF(Kl.knil, m)))
    v.lemma("serialization in any order: step", [SERK(b, m) == SERF(ZIPF(b, m))], SERK(bs, m) == SERF(ZIPF(bs, m)))
    del o


def permutation(v):
    """The prescribed order is a permutation of the fields, canonical keys
    first, and reordering twice changes nothing more."""
    a, b, cn = z3.Consts("a b cn", Kl)
    k, x, n = z3.Consts("k x n", STR)
    m = z3.Const("m", Map)
    f = z3.Const("f", Fl)
    bs = Kl.ksnoc(b, k)

    # membership
    v.lemma("membership in FILT: base", [], INK(FILT(Kl.knil, cn), n) == z3.And(INK(Kl.knil, n), z3.Not(INK(cn, n))))
    v.lemma("membership in FILT: step", [
        INK(FILT(b, cn), n) == z3.And(INK(b, n), z3.Not(INK(cn, n))),
    ], INK(FILT(bs, cn), n) == z3.And(INK(bs, n), z3.Not(INK(cn, n))))
    v.lemma("membership in a concatenation: base", [], INK(APPK(a, Kl.knil), n) == z3.Or(INK(a, n), INK(Kl.knil, n)))
    v.lemma("membership in a concatenation: step", [INK(APPK(a, b), n) == z3.Or(INK(a, n), INK(b, n))],
            INK(APPK(a, bs), n) == z3.Or(INK(a, n), INK(bs, n)))
    v.lemma("the original order without canonical keys is distinct: step", [
        z3.Implies(DISTK(b), DISTK(FILT(b, cn))), INK(FILT(b, cn), k) == z3.And(INK(b, k), z3.Not(INK(cn, k))), DISTK(bs)
    ], DISTK(FILT(bs, cn)))
    v.lemma("canonical keys then the rest are distinct: step", [
        z3.Implies(z3.And(DISTK(a), DISTK(FILT(b, a))), DISTK(APPK(a, FILT(b, a)))),
        INK(APPK(a, FILT(b, a)), k) == z3.Or(INK(a, k), INK(FILT(b, a), k)),
        DISTK(a), DISTK(FILT(bs, a)),
    ], DISTK(APPK(a, FILT(bs, a))))
    v.lemma("keys of distinct fields are distinct: step", [
        z3.Implies(DISTF(f), DISTK(KEYS(f))), has(f, k) == INK(KEYS(f), k), DISTF(Fl.fsnoc(f, k, x))
    ], DISTK(KEYS(Fl.fsnoc(f, k, x))))
    # selected fields: exactly the keys of the order that are fields
    sel = MAPF(ZIPF(bs, m))
    v.lemma("selected fields keep their values: base", [], z3.Select(MAPF(ZIPF(Kl.knil, m)), n) == Opt.none)
    v.lemma("selected fields keep their values: step", [
        z3.Select(MAPF(ZIPF(b, m)), n) == z3.If(INK(b, n), z3.Select(m, n), Opt.none),
    ], z3.Select(sel, n) == z3.If(INK(bs, n), z3.Select(m, n), Opt.none))
    v.lemma("no field is written twice: step", [
        z3.Implies(DISTK(b), DISTF(ZIPF(b, m))),
        z3.Select(MAPF(ZIPF(b, m)), k) == z3.If(INK(b, k), z3.Select(m, k), Opt.none),
        DISTK(bs),
    ], DISTF(ZIPF(bs, m)))
    # the theorem: for a distinct canonical order, same values, once each
    name = z3.Const("name", STR)
    order = order_of(name, f)
    g = ZIPF(order, MAPF(f))
    cn = CANON(name)
    fil = FILT(KEYS(f), cn)
    facts = [
        DISTF(f), DISTK(cn),
        DISTK(KEYS(f)), DISTK(fil), DISTK(APPK(cn, fil)),
        has(f, n) == INK(KEYS(f), n),
        INK(fil, n) == z3.And(INK(KEYS(f), n), z3.Not(INK(cn, n))),
        INK(APPK(cn, fil), n) == z3.Or(INK(cn, n), INK(fil, n)),
    ]
    for o in (KEYS(f), APPK(cn, fil)):
        facts.append(z3.Select(MAPF(ZIPF(o, MAPF(f))), n) == z3.If(INK(o, n), z3.Select(MAPF(f), n), Opt.none))
        facts.append(z3.Implies(DISTK(o), DISTF(ZIPF(o, MAPF(f)))))
    v.lemma("reordering keeps every field with its value", facts, z3.Select(MAPF(g), n) == z3.Select(MAPF(f), n))
    v.lemma("reordering keeps every field once", facts, DISTF(g))

    # keys stay valid
    valid = z3.Function("VALIDIN", Map, BOOL)
    v.lemma("selected keys are valid: step", [
        z3.Implies(valid(m), VALIDF(ZIPF(b, m))), valid(m), z3.Implies(z3.And(valid(m), Opt.is_some(z3.Select(m, k))), VALIDK(k))
    ], VALIDF(ZIPF(bs, m)))
    # canonical fields first, in canonical order; then the others in theirs
    v.lemma("selection distributes over concatenation: step", [
        KEYS(ZIPF(APPK(a, b), m)) == APPK(RESTR(a, m), RESTR(b, m))
    ], KEYS(ZIPF(APPK(a, bs), m)) == APPK(RESTR(a, m), RESTR(bs, m)))
    v.lemma("selected keys are the order restricted to the fields: step", [KEYS(ZIPF(b, m)) == RESTR(b, m)], KEYS(ZIPF(bs, m)) == RESTR(bs, m))
    v.lemma("selection distributes over concatenation: base", [KEYS(ZIPF(a, m)) == RESTR(a, m)],
            KEYS(ZIPF(APPK(a, Kl.knil), m)) == APPK(RESTR(a, m), RESTR(Kl.knil, m)))

    # idempotence
    m2 = z3.Const("m2", Map)
    cn = z3.Const("cn", Kl)
    cover = z3.Function("COVERS", Kl, Kl, BOOL)  # every key of the first is in the second
    v.lemma("canonical keys are not extra: step", [
        z3.Implies(cover(b, cn), FILT(RESTR(b, m), cn) == Kl.knil), cover(bs, cn) == z3.And(cover(b, cn), INK(cn, k)), cover(bs, cn)
    ], FILT(RESTR(bs, m), cn) == Kl.knil)
    v.lemma("extra keys stay extra: step", [FILT(RESTR(FILT(b, cn), m), cn) == RESTR(FILT(b, cn), m)],
            FILT(RESTR(FILT(bs, cn), m), cn) == RESTR(FILT(bs, cn), m))
    v.lemma("FILT distributes over concatenation: step", [FILT(APPK(a, b), cn) == APPK(FILT(a, cn), FILT(b, cn))],
            FILT(APPK(a, bs), cn) == APPK(FILT(a, cn), FILT(bs, cn)))
    v.lemma("FILT distributes over concatenation: base", [], FILT(APPK(a, Kl.knil), cn) == APPK(FILT(a, cn), FILT(Kl.knil, cn)))
    v.lemma("the empty list is a left unit: step", [APPK(Kl.knil, b) == b], APPK(Kl.knil, bs) == bs)
    v.lemma("restricting twice selects the same fields: step", [ZIPF(APPK(cn, RESTR(b, m)), m) == ZIPF(APPK(cn, b), m)],
            ZIPF(APPK(cn, RESTR(bs, m)), m) == ZIPF(APPK(cn, bs), m))
    v.lemma("selection depends only on the values: step", [
        z3.Implies(m == m2, ZIPF(b, m) == ZIPF(b, m2)), z3.Select(m, k) == z3.Select(m2, k), m == m2
    ], ZIPF(bs, m) == ZIPF(bs, m2))
    # theorem: fields g = ZIPF(order(f)); reordering g gives g again
    cn = CANON(name)
    m = MAPF(f)
    fil = FILT(KEYS(f), cn)
    first = APPK(cn, fil)
    g = ZIPF(first, m)
    kg = KEYS(g)
    v.lemma("reordering twice changes nothing more", [
        MAPF(g) == m,
        kg == APPK(RESTR(cn, m), RESTR(fil, m)),
        FILT(APPK(RESTR(cn, m), RESTR(fil, m)), cn) == APPK(FILT(RESTR(cn, m), cn), FILT(RESTR(fil, m), cn)),
        FILT(RESTR(cn, m), cn) == Kl.knil,
        FILT(RESTR(fil, m), cn) == RESTR(fil, m),
        APPK(Kl.knil, RESTR(fil, m)) == RESTR(fil, m),
        ZIPF(APPK(cn, RESTR(fil, m)), m) == ZIPF(APPK(cn, fil), m),
        z3.Not(z3.Select(m, lit("preserve_order")) == Opt.some(lit("true"))), HASORD(name),
    ], ZIPF(order_of(name, g), MAPF(g)) == g)
    g2 = ZIPF(KEYS(f), m)
    v.lemma("keeping the original order twice changes nothing", [
        g2 == f, DISTF(f),
        z3.Or(z3.Select(m, lit("preserve_order")) == Opt.some(lit("true")), z3.Not(HASORD(name))),
    ], ZIPF(order_of(name, g2), MAPF(g2)) == g2)


def reachable(v):
    """Every parsed token has a valid name, valid distinct keys; spans are
    ordered, non-empty and inside what was read."""
    s, t = z3.Consts("s t", St)
    c = z3.Int("c")
    hyps = [
        good(s), steps_to(s, c, t),
        validk_def(St.name(s), c), validk_def(St.key(s), c),
        VALIDK(z3.Unit(c)) == letter(c),
    ]
    v.lemma("reachable states are good: start", [], good(INIT))
    v.lemma("reachable states are good: step", hyps, good(t))
    # the text of one token alone is that token
    d = z3.Int("d")
    s2, t2 = z3.Consts("s2 t2", St)

    def related(x, y):
        return z3.And(St.mode(x) == St.mode(y), St.name(x) == St.name(y), St.fl(x) == St.fl(y), St.key(x) == St.key(y), St.val(x) == St.val(y),
                      St.pos(y) == St.pos(x) - d, St.start(y) == St.start(x) - d)

    opened = z3.And(St.mode(s) >= NAME, St.mode(s) < ERR)
    last, last2 = Tl.tlast(St.toks(t)), Tl.tlast(St.toks(t2))
    same = z3.And(Tok.tname(last) == Tok.tname(last2), Tok.tfl(last) == Tok.tfl(last2), Tok.tstart(last2) == Tok.tstart(last) - d,
                  Tok.tend(last2) == Tok.tend(last) - d)
    v.lemma("a token depends only on its own text", [related(s, s2), opened, steps_to(s, c, t), steps_to(s2, c, t2)],
            z3.Or(z3.And(St.mode(t) == ERR, St.mode(t2) == ERR), z3.And(St.mode(t) != OUT, related(t, t2)), z3.And(St.mode(t) == OUT, St.mode(t2) == OUT, same)))
    v.lemma("a token starts at its first letter", [
        s == st(OUT, St.pos(s), St.toks(s)), s2 == st(OUT, St.pos(s) - d, St.toks(s2)), letter(c), steps_to(s, c, t), steps_to(s2, c, t2)
    ], z3.And(related(t, t2), St.start(t) == St.pos(s)))


def spans(v):
    """The spans of the reordered text."""
    sl = z3.Const("sl", Sl)
    x = z3.Const("x", STR)
    ss = Sl.slsnoc(sl, x)
    sp = SPANF(ss)
    whole = JOINF(ss)
    a, b = Pl.plfrom(sp), Pl.plto(sp)
    h = z3.Const("h", STR)
    for first in (True, False):
        v.lemma("an output span is exactly the text of its token (%s)" % ("first" if first else "further"),
                [JOINF(sl) == h, (sl == Sl.slnil) == z3.BoolVal(first), z3.Implies(sl == Sl.slnil, h == EMPTY)],
                z3.And(a == z3.Length(h) + (0 if first else 1), b == a + z3.Length(x), whole == (x if first else cat(h, lit(" "), x))))
    v.lemma("slicing at the end of a prefix", [], z3.SubSeq(cat(h, lit(" "), x), z3.Length(h) + 1, z3.Length(x)) == x)
    v.lemma("an output span starts after the previous one", [], z3.And(a >= z3.Length(JOINF(sl)), b >= a, b == z3.Length(whole)))
    v.lemma("later tokens leave earlier text in place", [], z3.PrefixOf(JOINF(sl), whole))


GROUPS = {"C01": (grammar, run_concat, escape_lemmas, round_trip, keys_lemmas, reachable), "C02": (grammar,),
          "C03": (grammar, run_concat, escape_lemmas, round_trip, keys_lemmas, permutation, reachable), "C04": (grammar, reachable, spans)}


def prove(v, pid):
    v.axioms += definitions()
    for group in GROUPS[pid]:
        group(v)
