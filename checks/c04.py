"""C04: token spans are exact."""
from lib import common, replay, wire
from lib.common import Check
from lib import proof
from contracts import token_parser, wire_lemmas

BODY = '''
from tn.token_parser import TokenParser
text = %r
orders = %r
want = [(s, e) for _, _, s, e in parse(text)]
p = TokenParser(orders)
out, spans = p.reorder_with_spans(text)
got = [(t.start, t.end) for t in p.tokens]
print(want, got, spans)
assert got == want, (got, want)
assert (out, tuple(spans)) == reorder(text, orders)
'''


def falsify(chk):
    from tn.token_parser import TokenParser
    rng = common.rng("C04")
    fixed = ["a { }", "a { } ", " a { }", "a { }b { }", "a { }  b { }  ", 'a { k: "}" }', 'a { k: "\\"}" } b { }', "   ", "abc { } x { }"]
    for i in range(40000 if common.THOROUGH else 6000):
        orders = {n: rng.sample(wire.KEYS, rng.randint(0, 6)) for n in rng.sample(wire.NAMES, rng.randint(0, 4))}
        text = fixed[i] if i < len(fixed) else wire.loose(rng, wire.tokens(rng, 5))
        chk.tried(text, (str(orders), text))
        want = [(s, e) for _, _, s, e in wire.parse(text)]
        try:
            p = TokenParser(orders)
            out, spans = p.reorder_with_spans(text)
            got = [(t.start, t.end) for t in p.tokens]
            ok = got == want and (out, tuple(spans)) == wire.reorder(text, orders)
        except Exception as e:
            ok, got, spans = False, e, None
        if not ok:
            chk.fail_input("token spans", "stream %r: token spans %r (want %r), reordered spans %r" % (text, got, want, spans),
                           replay.with_module(wire, BODY % (text, orders)))
            return


def check():
    chk = Check("C04", "proof")
    chk.rule = "start/end of every parsed token and every span of the reordered text are proved exact for every text; concrete runs only look for a failing input: " + "random token streams with optional spacing; spans compared with an independent automaton"
    def body(v):
        token_parser.prove(v, token_parser.PARSING + token_parser.SERIALIZING + token_parser.REORDERING)
        token_parser.prove_construction(v)
        wire_lemmas.prove(v, "C04")

    chk.trusted += ["str.replace of a one-character pattern is a homomorphism over concatenation (contract of the builtin)", "the induction rule: base and step obligations imply the lemma"]
    proof.prove(chk, "C04", body)
    falsify(chk)
    return chk
