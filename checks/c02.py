"""C02: the parser accepts exactly the wire grammar and fails only as documented."""
import itertools

from lib import common, replay, wire
from lib.common import Check
from lib import proof
from contracts import token_parser, wire_lemmas

BODY = '''
import signal
from tn.token_parser import TokenParser, TokenParseError
text = %r
signal.alarm(10)
try:
    want = parse(text)
except Malformed as e:
    want = None
try:
    p = TokenParser({})
    p.parse(text)
    got = [(t.name, [(k, t.members[k]) for k in t.order]) for t in p.tokens]
except TokenParseError as e:
    got = None
print(repr(text), 'expected', want, 'got', got)
assert got == (None if want is None else [(n, f) for n, f, _, _ in want])
'''


def run_one(text):
    from tn.token_parser import TokenParseError, TokenParser
    try:
        want = [(n, f) for n, f, _, _ in wire.parse(text)]
    except wire.Malformed:
        want = None
    try:
        p = TokenParser({})
        p.parse(text)
        got = [(t.name, [(k, t.members[k]) for k in t.order]) for t in p.tokens]
    except TokenParseError:
        got = None
    except Exception as e:
        return want, e
    return want, got


def cases(rng):
    yield ""
    alpha = ['a', '"', '\\', '{', '}', ' ', ':', '1']
    for prefix in ["", "a { ", 'a { k: "', 'a { k: "v" ', 'a { k: "v" } ', 'a { k: "\\']:
        for n in range(0, 5 if common.THOROUGH else 4):
            for t in itertools.product(alpha, repeat=n):
                yield prefix + "".join(t)
    for c in list(range(0, 0x180)) + [0x2003, 0x3000, 0xff41, 0xff3f, 0x212a, 0x17f, 0x1d400]:
        for f in ("%s", "%sa { }", "a%s { }", "a %s{ }", "a { %s}", "a { %sk: \"v\" }", "a { k%s: \"v\" }", "a { k: %s\"v\" }", "a { k: \"v\"%s}",
                  "a { }%s", "a { k: \"\\%s\" }", "a { k: \"%s"):
            yield f % chr(c)
    for _ in range(60000 if common.THOROUGH else 8000):
        s = wire.loose(rng, wire.tokens(rng))
        yield s
        yield wire.mutate(rng, s)
        yield s[:rng.randint(0, len(s))]


def falsify(chk):
    import signal

    def slow(*a):
        raise TimeoutError("parse did not terminate")

    rng = common.rng("C02")
    old = signal.signal(signal.SIGALRM, slow)
    try:
        for text in cases(rng):
            chk.tried(text, text)
            signal.alarm(20)
            want, got = run_one(text)
            signal.alarm(0)
            if isinstance(got, Exception) or want != got:
                chk.fail_input("parse = reference automaton", "stream %r: expected %r, got %r" % (text, want, got),
                               replay.with_module(wire, BODY % (text,)))
                return
    except TimeoutError as e:
        chk.fail_input("parse terminates", "stream %r: %r" % (text, e), replay.with_module(wire, BODY % (text,)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def check():
    chk = Check("C02", "proof")
    chk.rule = "parse is proved to accept exactly the texts of the wire automaton (tokens = what the text denotes, the documented error otherwise, nothing else escapes, termination by variants); concrete texts only look for a failing input: " + "valid streams, their truncations and mutations, all strings up to 3 characters over an 8-character alphabet after 6 prefixes, every Latin character at every position; compared with an independent automaton"
    def body(v):
        token_parser.prove(v, token_parser.PARSING)
        token_parser.prove_construction(v)
        wire_lemmas.prove(v, "C02")

    chk.trusted += ["str.replace of a one-character pattern is a homomorphism over concatenation (contract of the builtin)", "the induction rule: base and step obligations imply the lemma"]
    proof.prove(chk, "C02", body)
    falsify(chk)
    return chk
