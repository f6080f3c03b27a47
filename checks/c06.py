"""C06: span tracing is sound on any transducer path."""
from lib import common, proof
from lib.common import Check
from contracts import alignment

HELP = '''
import pynini
from pynini import Fst, Arc, Weight
from tn.alignment import trace_input_spans, transduce_with_spans, AlignmentError

def linear(arcs):
    f = Fst()
    s = f.add_state(); f.set_start(s)
    for i, o in arcs:
        t = f.add_state()
        f.add_arc(s, Arc(i, o, Weight.one('tropical'), t))
        s = t
    f.set_final(s)
    return f

def boundaries(text):
    out, n = {0}, 0
    for c in text:
        n += len(c.encode())
        out.add(n)
    return out

def in_bytes(text, spans):
    return [(len(text[:a].encode()), len(text[:b].encode())) for a, b in spans]

def valid_request(text, spans, empty_ok):
    prev = 0
    for a, b in spans:
        if a < prev or b < a or b > len(text):
            return 'AlignmentError'
        if a == b and not empty_ok:
            return 'ValueError'
        prev = b
    return None

def owners(arcs, spans, out_space):
    """Documented ownership: list of (output byte index, token index or None)
    and for every input position the output emitted before it is consumed."""
    res, before = [], {}
    i = o = 0
    for il, ol in arcs:
        before[i] = o
        if ol:
            inside = [k for k, (a, b) in enumerate(spans) if a <= i < b]
            owner = None
            if il:
                owner = inside[0] if inside else None
            elif inside and (spans[inside[0]][0] < i or inside[0] == 0):
                owner = inside[0]
            elif not out_space[o]:
                done = [k for k, (a, b) in enumerate(spans) if b <= i]
                owner = done[-1] if done else None
            res.append((o, owner))
        i += 1 if il else 0
        o += 1 if ol else 0
    before[i] = o
    return res, before

def expected_output_spans(arcs, x, y, spans):
    """Spans in characters, or None when an AlignmentError is due."""
    spans = in_bytes(x, spans)
    space = []
    for c in y:
        space += [c.isspace()] * len(c.encode())
    own, before = owners(arcs, spans, space)
    total = len(y.encode())
    res, prev = [], 0
    for k, (a, b) in enumerate(spans):
        mine = [o for o, w in own if w == k]
        if mine:
            s, e = mine[0], mine[-1] + 1
            if s < prev:
                return None
        else:
            s = e = max(before.get(a, total), prev)
        res.append((s, e))
        prev = e
    ok = boundaries(y)
    if any(s not in ok or e not in ok for s, e in res):
        return None
    return tuple((len(y.encode()[:s].decode()), len(y.encode()[:e].decode())) for s, e in res)

def expected_input_spans(arcs, x, y, spans):
    """Spans in characters, or None when an AlignmentError is due.

    Input consumed while the path is inside a token's output belongs to the
    token, except input deleted before the token has emitted anything and
    deleted whitespace in front of the first input the token owns; input
    aligned with the separator just before a token belongs to that token."""
    spans = in_bytes(y, spans)
    space = []
    for c in x:
        space += [c.isspace()] * len(c.encode())
    mine = [[] for _ in spans]
    i = o = 0
    for il, ol in arcs:
        if il:
            inside = [k for k, (a, b) in enumerate(spans) if a <= o < b]
            later = [k for k, (a, b) in enumerate(spans) if b > o]
            if inside:
                k = inside[0]
                if (ol or spans[k][0] < o) and (ol or not space[i] or mine[k]):
                    mine[k].append(i)
            elif ol and later and spans[later[0]][0] == o + 1 and not space[i]:
                mine[later[0]].append(i)
            i += 1
        o += 1 if ol else 0
    ok = boundaries(x)
    out = []
    for m in mine:
        if not m or m[0] not in ok or m[-1] + 1 not in ok:
            return None
        out.append((len(x.encode()[:m[0]].decode()), len(x.encode()[:m[-1] + 1].decode())))
    return tuple(out)
'''
T_OUT = HELP + '''
x, y, arcs, spans = %r, %r, %r, %r
fst = linear(arcs)
bad = valid_request(x, spans, False)
try:
    got = transduce_with_spans(x, fst, spans, output_text=%r)
except AlignmentError as e:
    got = 'AlignmentError'
except ValueError as e:
    got = 'ValueError'
want = bad
if bad is None:
    w = expected_output_spans(arcs, x, y, spans)
    want = 'AlignmentError' if w is None else (y, w)
print('got', got, 'want', want)
assert got == want, (got, want)
'''
T_IN = HELP + '''
x, y, arcs, spans = %r, %r, %r, %r
fst = linear(arcs)
bad = valid_request(y, spans, True)
try:
    got = trace_input_spans(x, y, fst, spans)
except AlignmentError as e:
    got = 'AlignmentError'
print('got', got)
want = bad
if bad is None:
    want = expected_input_spans(arcs, x, y, spans)
    want = 'AlignmentError' if want is None else want
print('want', want)
assert got == want, (got, want)
'''

def random_case(rng):
    chars = ["a", "b", " ", "é", "中", "😀", "\u00a0", "\u3000", "1"]
    x = "".join(rng.choice(chars) for _ in range(rng.randint(1, 6)))
    y = "".join(rng.choice(chars) for _ in range(rng.randint(0, 6)))
    ib, ob = list(x.encode()), list(y.encode())
    arcs = []
    while ib or ob:
        k = rng.random()
        if ib and ob and k < 0.5:
            arcs.append((ib.pop(0), ob.pop(0)))
        elif ib and (k < 0.75 or not ob):
            arcs.append((ib.pop(0), 0))
        elif ob:
            arcs.append((0, ob.pop(0)))
        if rng.random() < 0.05:
            arcs.append((0, 0))
    return x, y, arcs


def random_spans(rng, n, valid=True):
    spans, pos = [], 0
    for _ in range(rng.randint(0, 3)):
        a = rng.randint(pos, n) if valid else rng.randint(-1, n + 1)
        b = rng.randint(a, n) if valid and a <= n else rng.randint(-1, n + 2)
        spans.append((a, b))
        pos = b
    return spans


def blocks(rng):
    """A transducer made of token blocks with a known alignment."""
    chars = ["a", "b", "é", "中", "😀", "1", "Z"]
    arcs, x, y, spans_in, spans_out = [], "", "", [], []
    for k in range(rng.randint(1, 4)):
        sep = rng.choice(["", " ", "  "]) if k else rng.choice(["", " "])
        sepout = " " if k else ""
        xi = "".join(rng.choice(chars) for _ in range(rng.randint(1, 3)))
        pre, post = rng.choice([("t { v: \"", "\" }"), ("x { k: \"", "\" } "[:3])])
        yo = pre + xi + post
        for c in sep.encode():
            arcs.append((c, 0))
        for c in sepout.encode():
            arcs.append((0, c))
        start_in, start_out = len(x) + len(sep), len(y) + len(sepout)
        x += sep + xi
        y += sepout + yo
        for c in pre.encode():
            arcs.append((0, c))
        for c in xi.encode():
            arcs.append((c, c))
        for c in post.encode():
            arcs.append((0, c))
        spans_in.append((start_in, start_in + len(xi)))
        spans_out.append((start_out, start_out + len(yo)))
    return x, y, arcs, spans_in, spans_out


BLOCK = HELP + '''
x, y, arcs, spans_in, spans_out = %r
fst = linear(arcs)
got = trace_input_spans(x, y, fst, spans_out)
print(got, spans_in)
assert tuple(got) == tuple(spans_in), (got, spans_in)
inv = linear([(o, i) for i, o in arcs])
text, got = transduce_with_spans(y, inv, spans_out)
print(text, got)
# everything emitted at the start of the stream belongs to the first token
spans_in[0] = (0, spans_in[0][1])
assert text == x and tuple(got) == tuple(spans_in), (text, got, spans_in)
'''
REQUESTED = HELP + '''
# the requested output is followed, not the cheaper one
x, cheap, wanted = %r
fst = pynini.cross(pynini.escape(x), pynini.escape(cheap)) | pynini.cross(pynini.escape(x), pynini.union(pynini.escape(wanted))) + pynini.accep('', weight=5)
text, spans = transduce_with_spans(x, fst, [(0, len(x))], output_text=wanted)
assert text == wanted, (text, wanted)
assert spans == ((0, len(wanted)),), spans
try:
    transduce_with_spans(x, fst, [(0, len(x))], output_text=wanted + 'zz')
    raise SystemExit('no AlignmentError for an impossible output')
except AlignmentError:
    pass
try:
    trace_input_spans(x, wanted + 'zz', fst, [(0, 1)])
    raise SystemExit('no AlignmentError for an impossible output')
except AlignmentError:
    pass
text, spans = transduce_with_spans(x, fst)
assert text == cheap and spans == (), (text, spans)
'''


def attempt(chk, name, script):
    try:
        exec(script, {"print": lambda *a: None})
        return True
    except BaseException as e:
        chk.fail_input(name, "%r" % (e,), script)
        return False


def falsify(chk):
    import pynini
    rng = common.rng("C06")
    n = 12000 if common.THOROUGH else 1500
    for k in range(n):
        x, y, arcs = random_case(rng)
        spans = random_spans(rng, len(x), rng.random() < 0.9)
        ask = y if rng.random() < 0.5 else None
        chk.tried({"arcs": arcs, "spans": spans}, (x, y, str(arcs), str(spans)))
        ok = attempt(chk, "transduce_with_spans on a linear transducer", T_OUT % (x, y, arcs, spans, ask))
        spans = random_spans(rng, len(y), rng.random() < 0.9)
        ok = attempt(chk, "trace_input_spans on a linear transducer", T_IN % (x, y, arcs, spans)) and ok
        b = blocks(rng)
        chk.tried({"blocks": b[:2]}, b[0] + b[1])
        ok = attempt(chk, "token blocks map back exactly", BLOCK % (b,)) and ok
        if k < 40:
            w = tuple("".join(rng.choice("abcé中 ") for _ in range(rng.randint(1, 4))) + str(i) for i in range(3))
            w = (w[0], w[1][:-1].strip() + "1", w[2].strip())
            ok = attempt(chk, "the requested output is traced", REQUESTED % (w,)) and ok
        if not ok:
            return


def check():
    chk = Check("C06", "proof")
    chk.rule = "the five functions of tn/alignment.py are proved for every text, transducer path and span request against the ownership rules; concrete runs only look for a failing input: random linear transducers over multi-byte text with epsilon arcs and random span requests, compared with the documented ownership rules; token blocks of known alignment traced both ways"
    chk.trusted += [
        "OpenFst: shortestpath returns one path of the lattice, whose labels spell the accepted input and output bytes; string() spells its output",
        "texts are valid Unicode without NUL (byte 0 is OpenFst's epsilon)",
        "the induction rule: base and step obligations imply the lemma",
    ]

    def body(v):
        alignment.prove(v)
        alignment.lemmas(v)

    proof.prove(chk, "C06", body)
    falsify(chk)
    return chk
