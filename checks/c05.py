"""C05: mappings describe the normalization faithfully."""
import time

from contracts import mapping
from lib import common, gen, grammar, pipes, proof, rat, trace
from lib.common import Check
from checks.c20 import CHECKER, SPEC

ORACLE = CHECKER + '''
def faithful(p, x, nbest=2):
    """Raises AssertionError with a description when a mapping is unfaithful."""
    outs = p.normalize(x, nbest=nbest)
    assert p.normalize(x) == outs[0], ('normalize(x) differs from the first n-best output', p.normalize(x), outs)
    first = p.normalize_with_mapping(x)
    full = p.normalize_with_mapping(x, nbest=nbest, include_identity=True)
    part = p.normalize_with_mapping(x, nbest=nbest)
    assert [r.output_text for r in full] == outs, ('outputs differ from normalize', [r.output_text for r in full], outs)
    assert [r.output_text for r in part] == outs
    assert first == part[0], 'nbest=1 result differs'
    for r, q in zip(full, part):
        assert r.input_text == x and q.input_text == x
        pos_i = pos_o = 0
        for m in r.mappings:
            assert pos_i <= m.input_start < m.input_end <= len(x), ('input span', m)
            assert pos_o <= m.output_start <= m.output_end <= len(r.output_text), ('output span', m)
            assert x[pos_i:m.input_start].isspace() or pos_i == m.input_start, ('input text outside the mappings', x[pos_i:m.input_start])
            assert r.output_text[pos_o:m.output_start].isspace() or pos_o == m.output_start, ('output text outside the mappings', r.output_text[pos_o:m.output_start])
            assert m.input_text == x[m.input_start:m.input_end], ('input text', m)
            assert m.output_text == r.output_text[m.output_start:m.output_end], ('output text', m)
            kind = 'equal' if m.input_text == m.output_text else ('replace' if m.output_text else 'delete')
            assert m.kind == kind, ('kind', m)
            pos_i, pos_o = m.input_end, m.output_end
        assert x[pos_i:].isspace() or pos_i == len(x), ('input tail outside the mappings', x[pos_i:])
        assert r.output_text[pos_o:].isspace() or pos_o == len(r.output_text), ('output tail', r.output_text[pos_o:])
        assert tuple(m for m in r.mappings if m.kind != 'equal') == tuple(q.mappings), ('include_identity=False', q.mappings)
        d = r.as_dict()
        assert d['input'] == x and d['output'] == r.output_text and len(d['mappings']) == len(r.mappings)
        for e, m in zip(d['mappings'], r.mappings):
            assert e == {'kind': m.kind, 'token_type': m.token_type,
                         'input': {'start': m.input_start, 'end': m.input_end, 'text': m.input_text},
                         'output': {'start': m.output_start, 'end': m.output_end, 'text': m.output_text}}, e
    # every token of the analysis has its own mapping, made of its own field values
    r = full[0]
    tagged = None
    for t in p.tag(x, nbest=4):
        parser = p.token_parser()
        parser.parse(t)
        if [k.name for k in parser.tokens] != [m.token_type for m in r.mappings]:
            continue
        tagged = t
        space = ' \\t\\n\\r\\x0b\\x0c\\u00a0'
        strip = lambda s: ''.join(c for c in s if c not in seps and c not in space)
        ok = True
        for tok, m in zip(parser.tokens, r.mappings):
            own = ''.join(tok.members[k] for i, k in enumerate(tok.order)
                          if '%%s: "%%s"' %% (k, tok.members[k]) not in controls and
                          not (i == 0 and '%%s: "%%s"' %% (k, tok.members[k]) in leading))
            ok = ok and strip(own) == strip(m.input_text)
        if ok:
            break
    else:
        assert tagged is None, ('token values do not match the mapped input', tagged, r.mappings)
'''
TRACED = """
from tn.alignment import trace_input_spans, transduce_with_spans
x, tagged, text = %r, %r, %r
parser = p.token_parser()
reordered, spans = parser.reorder_with_spans(tagged)
if x is not None:
    print('the tagger relates', repr(x), 'to', tagged)
    owned = trace_input_spans(x, tagged, p.tagger, [(t.start, t.end) for t in parser.tokens])
    whole = x
else:
    print('the verbalizer relates', reordered, 'to', repr(text))
    whole, owned = transduce_with_spans(reordered, p.verbalizer, spans, output_text=text)
at = 0
for a, b in owned:
    assert at <= a <= b <= len(whole), owned
    assert x is None or a < b, owned
    assert whole[at:a].strip() == '', ('text outside the mappings', whole[at:a])
    at = b
assert whole[at:].strip() == '', ('text outside the mappings', whole[at:])
"""


def grammar_rules(name, p, out):
    """Which bytes belong to which token, on every path of the built FSTs."""
    for side, fst in (("input", p.tagger), ("output", p.verbalizer)):
        t = time.time()
        states, w = trace.owned(fst, side)
        label = "%s.%s: every %s character belongs to one token or is whitespace outside%s" % (
            name, "tagger" if side == "input" else "verbalizer", side, "; every token owns input" if side == "input" else "")
        out["ob"].append((label, w is None, "lib/trace.cpp", time.time() - t, "%d product states" % states))
        if w is None:
            continue
        kind, a, b = w
        x, tagged, text = (grammar.text(a), grammar.text(b), None) if side == "input" else (None, grammar.text(a), grammar.text(b))
        script = pipes.script(name, TRACED % (x, tagged, text))
        for body in ((BODY % (SPEC[name] + (x,)) if x else None), TRACED % (x, tagged, text)):
            try:
                if body:
                    exec(body, {"p": p, "print": lambda *a: None})
            except BaseException as e:
                out["fail"].append((label, "%s: %r -> %r: %r" % (kind, grammar.text(a), grammar.text(b), e), pipes.script(name, body)))
                break
        else:
            out["soft"].append((label, "%s on the path %r -> %r (another path of the pair is selected)\n%s" % (kind, grammar.text(a), grammar.text(b), script)))
    t = time.time()
    w = rat.included(p.verbalizer, grammar.V.star.optimize(), aside="output")
    label = name + ".verbalizer: its outputs are valid UTF-8"
    out["ob"].append((label, w is None, "rat.included", time.time() - t, ""))
    if w is not None:
        pair = rat.any_pair((p.verbalizer @ rat.accep_raw(w)).connect())
        out["soft"].append((label, "output bytes %r for %r" % (w, pair and grammar.text(pair[0]))))


BODY = ORACLE + "\nx = %r\nprint(p.normalize_with_mapping(x, include_identity=True))\nfaithful(p, x)\n"


def one(name, count):
    out = {"tried": [], "fail": [], "ob": [], "soft": []}
    p = pipes.build(name)
    grammar_rules(name, p, out)
    scope = {}
    exec(ORACLE % SPEC[name], scope)
    rng = common.rng("C05", name)
    end = time.time() + (60 if not common.THOROUGH else 500)
    texts = gen.texts(rng, name, count)
    rng.shuffle(texts)
    for x in ["", " "] + texts:
        if time.time() > end:
            break
        if "\x00" in x:
            continue
        try:
            if x == "":
                r = p.normalize_with_mapping(x)
                assert (r.input_text, r.output_text, r.mappings) == ("", "", ()) and p.normalize(x) == ""
            else:
                scope["faithful"](p, x)
        except BaseException as e:
            if len(out["fail"]) < 3:
                out["fail"].append((name + " faithful mapping", "text %r: %r" % (x, e), pipes.script(name, BODY % (SPEC[name] + (x,)))))
        out["tried"].append(x)
    return out


def check():
    chk = Check("C05", "proof",
                trusted=["pynini/OpenFst graph construction, composition and arc iteration", "lib/trace.cpp (product reachability over the built FSTs)",
                         "OpenFst: shortestpath(unique=True) of a non-empty lattice is one linear path of it"],
                assumptions=["the contracts of trace_input_spans, transduce_with_spans (proved for C06), TokenParser (C03, C04) and the n-best candidates (C07)",
                             "the text is valid UTF-8 without U+0000"])
    chk.rule = ("normalize / normalize_with_mapping of all six pipelines on generated mixed-script texts, n-best ranks 1-2, checked against an independent oracle; "
                "non-trivial = distinct text")
    proof.prove(chk, "C05", mapping.prove, 300)
    trace.lib()
    rat.prepare()
    for name, status, value in pipes.parallel([(n, one, (n, 250)) for n in pipes.ALL]):
        if status != "ok":
            chk.obligation(name, False, "run")
            chk.fail_obligation(name + " mapping", value)
            continue
        for ob in value["ob"]:
            chk.obligation(*ob[:4], detail=ob[4], function=ob[0].split(":")[0])
        for x in value["tried"]:
            chk.tried({"pipeline": name, "text": x}, (name, x))
        for f in value["fail"]:
            chk.fail_input(*f)
        for f in value["soft"]:
            chk.fail_obligation(*f)
    return chk
