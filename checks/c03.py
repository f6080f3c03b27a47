"""C03: reordering permutes fields canonically and loses nothing."""
from lib import common, replay, wire
from lib.common import Check
from lib import proof
from contracts import token_parser, wire_lemmas

BODY = '''
from tn.token_parser import TokenParser
text = %r
orders = %r
want, _ = reorder(text, orders)
got = TokenParser(orders).reorder(text)
print(got)
assert got == want, (got, want)
assert TokenParser(orders).reorder(got) == got
'''
SHIPPED = '''
import importlib
from tn.token_parser import TokenParser
'''


def falsify(chk):
    from tn.token_parser import TokenParser
    rng = common.rng("C03")
    for i in range(40000 if common.THOROUGH else 6000):
        orders = {n: rng.sample(wire.KEYS, rng.randint(0, 6)) for n in rng.sample(wire.NAMES, rng.randint(0, 4))}
        text = wire.loose(rng, wire.tokens(rng))
        chk.tried({"orders": orders, "text": text}, (str(orders), text))
        want, _ = wire.reorder(text, orders)
        try:
            parser = TokenParser(orders)
            got = parser.reorder(text)
            ok = got == want and TokenParser(orders).reorder(got) == got and parser.reorder(text) == want
        except Exception as e:
            ok, got = False, e
        if not ok:
            chk.fail_input("reorder = canonical permutation", "stream %r orders %r: got %r want %r" % (text, orders, got, want),
                           replay.with_module(wire, BODY % (text, orders)))
            return


def check():
    chk = Check("C03", "proof")
    chk.rule = "Token.string and reorder are proved to write order_of(token) for every token list and every order table; permutation, canonical order and idempotence are lemmas by induction; concrete runs only look for a failing input: " + "random token streams under random order schemas, compared with an independent reordering; idempotence and reuse of one parser"
    def body(v):
        token_parser.prove(v, token_parser.PARSING + token_parser.SERIALIZING + token_parser.REORDERING)
        token_parser.prove_construction(v)
        token_parser.prove_tables(v)
        wire_lemmas.prove(v, "C03")

    chk.trusted += ["str.replace of a one-character pattern is a homomorphism over concatenation (contract of the builtin)", "the induction rule: base and step obligations imply the lemma"]
    proof.prove(chk, "C03", body)
    falsify(chk)
    return chk
