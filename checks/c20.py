"""C20: tagged fields carry exactly the written input (nothing added or lost)."""
import time

import pynini

from lib import common, gen, grammar, pipes, rat
from lib.common import Check

G = grammar
EN_CONTROLS = ['preserve_order: "true"'] + ['kind: "%s"' % k for k in ("phone", "ssn", "ip", "credit_card", "serial")] + ['style: "to"']
# pipeline -> (separators that need not be repeated, control fields, control fields only in first position)
SPEC = {
    "ja_itn": ("", ['preserve_order: "true"'], []),
    "zh_itn": ("", ['preserve_order: "true"'], []),
    "zh_tn": ("/-.:：", ['preserve_order: "true"'], []),
    "ja_tn": ("/-.:：／。－．", ['preserve_order: "true"'], []),
    "en_itn": ("", EN_CONTROLS, []),
    "en_tn": ("./-:@", EN_CONTROLS + ['integer: "-"'], ['units: "address"', 'units: "math"']),
}

CHECKER = '''
def values(p, tagged, controls, leading):
    parser = p.token_parser()
    parser.parse(tagged)
    out = []
    for token in parser.tokens:
        for i, key in enumerate(token.order):
            lit = '%%s: "%%s"' %% (key, token.members[key])
            if lit in controls or (i == 0 and lit in leading):
                continue
            out.append(token.members[key])
    return out

def lost(x, vals, seps):
    """None when x is the values in order, with only whitespace/separators left out."""
    space = ' \\t\\n\\r\\x0b\\x0c\\u00a0'
    strip = lambda s: ''.join(c for c in s if c not in seps and c not in space)
    if strip(x) != strip(''.join(vals)):
        return strip(x), strip(''.join(vals))
    # every separator inside a value stands in the input, in order
    i = 0
    for c in ''.join(vals):
        if c in space:
            continue
        while i < len(x) and x[i] != c:
            if x[i] not in seps and x[i] not in space:
                return x, ''.join(vals)
            i += 1
        if i == len(x):
            return x, ''.join(vals)
        i += 1
    return None

seps, controls, leading = %r, %r, %r
'''

BODY = CHECKER + '''
x = %r
tagged = %r
import pynini
assert (pynini.accep(pynini.escape(x)) @ p.tagger @ pynini.accep(pynini.escape(tagged))).start() != -1
print('input', repr(x), 'can be tagged', tagged)
bad = lost(x, values(p, tagged, controls, leading), seps)
assert bad is None, bad
'''


def one(name):
    out = {"ob": [], "fail": [], "soft": [], "tried": []}
    seps, controls, leading = SPEC[name]
    p = pipes.build(name)
    T = p.tagger
    t = time.time()
    E = G.eraser(seps)
    D = G.strip_wire(controls, leading)
    R = (T @ D).connect()
    R = (R @ E).connect()
    w = rat.subset_identity((pynini.invert(E) @ R))
    out["ob"].append((name + ".tagger: erase(input) = erase(decoded field values)", w is None, "rat.subset_identity", time.time() - t,
                      "%d states" % R.num_states()))
    if w is not None:
        a, b = w
        X = (E @ rat.accep_raw(a)).connect().project("input")
        Y = (D @ E @ rat.accep_raw(b)).connect().project("input")
        pair = rat.any_pair((X @ T @ Y).connect())
        if pair is None:
            out["soft"].append((name + " fields preserve input", "erased input %r, erased fields %r" % (G.text(a), G.text(b))))
        else:
            x, tagged = G.text(pair[0]), G.text(pair[1])
            out["fail"].append((name + " fields preserve input", "text %r can be tagged %r" % (x, tagged),
                                pipes.script(name, BODY % (seps, controls, leading, x, tagged))))
    scope = {}
    exec(CHECKER % (seps, controls, leading), scope)
    rng = common.rng(name)
    for x in gen.texts(rng, name, 250 if not common.THOROUGH else 3000):
        if "\x00" in x:
            continue
        try:
            tagged = p.tag(x)
            vals = scope["values"](p, tagged, controls, leading)
            bad = scope["lost"](x, vals, seps)
        except Exception as e:
            out["soft"].append((name + " tag", "text %r: %r" % (x, e)))
            continue
        out["tried"].append((x, tagged))
        if bad is not None:
            out["fail"].append((name + " fields preserve input", "text %r tagged %r" % (x, tagged),
                                pipes.script(name, BODY % (seps, controls, leading, x, tagged))))
    return out


def check():
    chk = Check("C20", "proof",
                trusted=["pynini/OpenFst graph construction, composition and arc iteration", "lib/rat.py identity decision (delay propagation)"],
                assumptions=["separators and whitespace are compared modulo deletion in the unbounded contract; their order is checked on the concrete runs only"])
    chk.rule = "contract erase(x) = erase(decode(tag)) for every path of the built tagger (all inputs, all n-best); plus tag() on generated texts"
    for name, status, value in pipes.parallel([(n, one, (n,)) for n in pipes.ALL]):
        if status != "ok":
            chk.obligation(name + " decided", False, "rat")
            chk.fail_obligation(name + " fields preserve input", value)
            continue
        for ob in value["ob"]:
            chk.obligation(*ob[:4], detail=ob[4], function=name + ".tagger")
        for x, tagged in value["tried"]:
            chk.tried({"pipeline": name, "text": x, "tagged": tagged}, (name, x))
        for f in value["fail"]:
            chk.fail_input(*f)
        for f in value["soft"]:
            chk.fail_obligation(*f)
    return chk
