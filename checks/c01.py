"""C01: the tagged-token wire format round-trips."""
import itertools

from lib import common, replay, wire
from lib.common import Check
from lib import proof
from contracts import token_parser, wire_lemmas

ORACLE = '''
from tn.token_parser import TokenParser, Token, escape_value
toks = %r
stream = %r
p = TokenParser({})
p.parse(stream)
got = [(t.name, [(k, t.members[k]) for k in t.order]) for t in p.tokens]
print(stream, got)
assert got == toks, got
'''
SER = '''
from tn.token_parser import TokenParser, Token, escape_value
toks = %r
parts = []
for name, fields in toks:
    t = Token(name)
    for k, v in fields:
        t.append(k, v)
    parts.append(t.string({}))
stream = ' '.join(parts)
p = TokenParser({})
p.parse(stream)
got = [(t.name, [(k, t.members[k]) for k in t.order]) for t in p.tokens]
print(repr(stream), got)
assert got == toks, (stream, got)
for name, fields in toks:
    for k, v in fields:
        e = escape_value(v)
        q = TokenParser({})
        q.parse('a { k: "' + e + '" }')
        assert q.tokens[0].members == {'k': v}, (e, q.tokens[0].members)
'''


def falsify(chk):
    rng = common.rng("C01")
    cases = []
    alpha = ['"', "\\", "a", " ", "}", "n"]
    for n in range(0, 5 if common.THOROUGH else 4):
        for v in itertools.product(alpha, repeat=n):
            cases.append([("a", [("k", "".join(v))])])
    for _ in range(40000 if common.THOROUGH else 4000):
        cases.append(wire.tokens(rng))
    for cp in list(range(0, 0x250)) + [0x2028, 0x3000, 0xd800, 0xffff, 0x10ffff]:
        cases.append([("a", [("k", chr(cp)), ("z", "x" + chr(cp) + "\\")])])
    for toks in cases:
        chk.tried(toks, toks)
        scope = {}
        try:
            exec(SER % (toks,), {"print": lambda *a: None}, scope)
        except BaseException as e:
            chk.fail_input("round trip Token.string -> parse", "tokens %r: %r" % (toks, e), SER % (toks,))
            return
        stream = wire.loose(rng, toks)
        try:
            exec(ORACLE % (toks, stream), {"print": lambda *a: None}, {})
        except BaseException as e:
            chk.fail_input("parse of a well-formed stream", "stream %r: %r" % (stream, e), ORACLE % (toks, stream))
            return


def check():
    chk = Check("C01", "proof")
    chk.rule = "parse, Token.append, Token.string and escape_value are proved against the wire automaton for every text; the round trip for every token list is a chain of lemmas by induction; concrete round trips only look for a failing input: " + "token lists with adversarial values (quotes, backslashes, braces, control characters, all of Latin-1), serialized by the real code and by an independent serializer, parsed back; all values up to 3 characters over a 6-character alphabet"
    def body(v):
        token_parser.prove(v, token_parser.PARSING + token_parser.SERIALIZING)
        token_parser.prove_construction(v)
        wire_lemmas.prove(v, "C01")

    chk.trusted += ["str.replace of a one-character pattern is a homomorphism over concatenation (contract of the builtin)", "the induction rule: base and step obligations imply the lemma"]
    proof.prove(chk, "C01", body)
    falsify(chk)
    return chk
