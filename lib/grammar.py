"""The rational specifications the compiled grammars are verified against.

Nothing here is derived from /repo: the wire format is written down from its
documentation (token stream grammar), independent of the code that emits it.
"""
import re
import time

import pynini
from pynini import accep, cross, difference, escape, invert, union
from pynini.lib import byte, utf8
from pynini.lib.pynutil import delete, insert

from lib import rat

V = utf8.VALID_UTF8_CHAR
BS = "\\\\"  # pynini source text of one backslash


def det(fst):
    return pynini.determinize(fst.optimize()).minimize()


KEY = union(byte.ALPHA, "_").plus.optimize()
PLAIN = difference(V, union(BS, '"')).optimize()
RAWBODY = (PLAIN | accep(BS) + V).star.optimize()
WS = accep(" ").star
FIELD = (KEY + accep(': "') + RAWBODY + accep('"')).optimize()
TOKEN = (KEY + accep(" { ") + (WS + FIELD).star + WS + accep("}")).optimize()
STREAM = det((WS + TOKEN).plus + WS)
# decoded value characters of a body
DECODE = (PLAIN | cross(BS + BS, BS) | cross(BS + '"', '"') | (accep(BS) + PLAIN)).star.optimize()
# a body, written again the way a serializer has to write the decoded value
REESCAPE = (PLAIN | accep(BS + BS) | accep(BS + '"') | (insert(BS) + accep(BS) + PLAIN)).star.optimize()
# one whole token of a stream, alone
FACT = (delete(det((WS + TOKEN).star + WS)) + TOKEN + delete(det((WS + TOKEN).star + WS))).optimize()
SKELETON = (KEY + accep(" { ") + (WS + KEY + accep(': "') + delete(RAWBODY) + accep('"')).star + WS + accep("}")).optimize()


def strip_wire(controls, leading_controls=()):
    """Token stream -> concatenated decoded field values.

    ``controls`` are fields which carry no input text; ``leading_controls``
    only count as such when they are the first field of their token.
    """
    key = KEY
    ws = delete(WS)
    anyf = det(FIELD)
    plain_field = delete(key) + delete(accep(': "')) + DECODE + delete(accep('"'))

    def mk(literals):
        if not literals:
            return plain_field
        lits = det(union(*[accep(x) for x in literals]))
        return ((difference(anyf, lits).optimize()) @ plain_field) | delete(lits)

    field = mk(list(controls))
    first = mk(list(controls) + list(leading_controls))
    tok = delete(key) + delete(accep(" { ")) + (ws + first + (ws + field).star).ques + ws + delete(accep("}"))
    return ((ws + tok).plus + ws).optimize()


def eraser(separators):
    sep = union(*[escape(x) for x in separators]) if separators else None
    space = byte.SPACE | accep("\u00a0")
    sepf = space if sep is None else (sep | space)
    return (difference(V, sepf) | delete(sepf)).star.optimize()


def skeletons(tokens_fst):
    """All field-name skeletons of the single tokens a tagger can emit."""
    R = (tokens_fst @ SKELETON).connect()
    A = rat.NFA(R, "output")
    stack = [(b"", A.closure([A.start]))]
    out = []
    while stack:
        w, Q = stack.pop()
        if any(A.final[q] for q in Q):
            out.append(w.decode())
        labels = set()
        for q in Q:
            labels |= A.arcs[q].keys()
        for label in labels:
            stack.append((w + bytes([label]), A.step(Q, label)))
            if len(w) > 400 or len(out) > 5000:
                raise RuntimeError("the tagger emits unboundedly many field layouts: %r" % w[:200])
    return sorted(out)


def keys_of(skeleton):
    name = skeleton.split(" ")[0]
    return name, re.findall(r'([A-Za-z_]+): ""', skeleton)


def reordered(parser_factory, skeleton, preserve=False):
    """Field order the real token parser produces for this skeleton."""
    name, keys = keys_of(skeleton)
    text = name + " { " + " ".join('%s: "%s"' % (k, "true" if k == "preserve_order" else "v") for k in keys) + " }"
    out = parser_factory().reorder(text)
    return keys_of(re.sub(r'"[^"]*"', '""', out))[1]


def token_language(L, skeleton, new):
    """Acceptor of the reordered tokens with this skeleton.

    ``L`` accepts the single tokens the tagger emits.  When the order is
    unchanged the language is exact; otherwise it is the product of the field
    projections (a superset).
    """
    name, keys = keys_of(skeleton)
    sp = delete(WS)
    if new == keys:
        f = accep(name + " { ") + sp
        for i, k in enumerate(keys):
            if i:
                f = f + sp + insert(" ")
            f = f + accep(k + ': "') + REESCAPE + accep('"')
        f = f + sp + insert(" ") + accep("}")
        return (L @ f).connect().project("output"), True
    g = accep(name + " { ")
    for j, k in enumerate(new):
        f = delete(name + " { ")
        for kk in keys:
            f = f + sp + delete(kk + ': "') + (REESCAPE if kk == k else delete(RAWBODY)) + delete('"')
        f = f + sp + delete("}")
        F = (L @ f).connect().project("output")
        g = g + (accep(" ") if j else accep("")) + accep(k + ': "') + F + accep('"')
    return g + accep(" }"), False


def text(b):
    return b.decode("utf-8", "replace")


def one_path(fst):
    """Some (input, output) byte pair of a non-empty relation."""
    return rat.any_pair(fst)


def now():
    return time.time()
