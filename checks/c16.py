"""C16: every tag is a well-formed token stream which the verbalizer accepts."""
import time

import pynini

from lib import common, gen, grammar, pipes, rat
from lib.common import Check

G = grammar


def find_input(tagger, token):
    """An input text for which the tagger can emit a stream with this token."""
    R = (tagger @ G.FACT @ rat.accep_raw(token)).connect()
    pair = rat.any_pair(R)
    return None if pair is None else G.text(pair[0])


BODY = """
x = %r
bad = []
for tagged in p.tag(x, nbest=30):
    try:
        p.token_parser().parse(tagged)
        p.verbalize(tagged)
    except Exception as e:
        bad.append((tagged, repr(e)))
        continue
print(bad)
assert not bad, 'tag of %%r cannot be verbalized: %%s' %% (x, bad[0])
p.normalize(x)
p.verbalize(p.tag(x))
"""

SYNTH = """
import pynini
# the token %s is emitted by the tagger for the input below (a non-best path)
x = %r
token = %r
raw = pynini.accep(pynini.escape(x)) @ p.tagger
assert raw.start() != -1
reordered = p.token_parser().reorder(token)
assert (pynini.accep(pynini.escape(reordered)) @ p.verbalizer).start() != -1, 'not verbalizable: ' + reordered
"""


def language_job(p, L, s):
    _, keys = G.keys_of(s)
    if len(set(keys)) != len(keys):
        return "dup", None, None
    new = G.reordered(p.token_parser, s)
    if sorted(new) != sorted(keys):
        return "reorder", None, None
    lang, exact = G.token_language(L, s, new)
    return "ok", lang, exact


def round_job(p, L, sk, VB, starts, indices):
    """Checks the tokens with layouts ``indices`` from every configuration."""
    out = []
    for i in indices:
        t = time.time()
        status, lang, exact = language_job(p, L, sk[i])
        if status != "ok":
            out.append((i, None, status, None, {}, 0.0))
            continue
        if lang.start() == -1:
            continue
        A = rat.CNFA(lang)
        for c, start in enumerate(starts):
            w, ends = rat.token_contract(A, VB, start=start)
            out.append((i, c, "" if exact else " (field product)", w, ends, time.time() - t))
            t = time.time()
    return out


def report(p, name, out, label, via, w):
    tok = G.text(w)
    if via is None:
        x = find_input(p.tagger, tok)
    else:
        first = G.text(via)
        R = (p.tagger @ (G.delete(G.det(G.STREAM).star) + rat.accep_raw(first) + G.WS + rat.accep_raw(tok) +
                         G.delete(G.det(G.STREAM).star))).connect()
        pair = rat.any_pair(R)
        x = G.text(pair[0]) if pair else find_input(p.tagger, tok)
    if x is not None:
        for tg in p.tag(x, nbest=30):
            try:
                p.verbalize(tg)
            except Exception as e:
                out["fail"].append((label, "text %r tagged %r: %r" % (x, tg, e), pipes.script(name, BODY % x)))
                return
        if via is None:
            re = p.token_parser().reorder(tok)
            if (pynini.accep(pynini.escape(re)) @ p.verbalizer).start() == -1:
                out["fail"].append((label, "text %r has a tag with token %r that cannot be verbalized" % (x, tok),
                                    pipes.script(name, SYNTH % ("", x, tok))))
                return
    out["soft"].append((label, "token %r is not accepted by the verbalizer after %r" % (tok, via and G.text(via))))


def one(name):
    out = {"ob": [], "fail": [], "soft": [], "tried": []}
    t = time.time()
    p = pipes.build(name)
    T = p.tagger
    # 1. wire format
    t = time.time()
    w = rat.included(T, G.STREAM | pynini.accep(""), aside="output")
    if w is None:
        # only the empty input may be tagged with the empty stream
        E = (G.V.plus @ T @ pynini.accep("")).connect()
        pair = rat.any_pair(E)
        if pair is not None:
            w = b""
            out["fail"].append((name + " wire format", "text %r is tagged with the empty stream" % G.text(pair[0]),
                                pipes.script(name, "x = %r\nassert all(p.tag(x, nbest=30))" % G.text(pair[0]))))
    else:
        R = (T @ rat.accep_raw(w)).connect()
        pair = rat.any_pair(R)
        x = G.text(pair[0])
        body = ("x = %r\nimport pynini\nbad = []\nfor tagged in p.tag(x, nbest=30):\n    try:\n        p.token_parser().parse(tagged)\n"
                "    except Exception as e:\n        bad.append((tagged, repr(e)))\nassert not bad, bad" % x)
        out["fail"].append((name + " wire format", "text %r can be tagged with the malformed stream %r" % (x, G.text(w)),
                            pipes.script(name, body)))
    out["ob"].append((name + ".tagger: range(tagger) in token-stream grammar", w is None, "rat.included", time.time() - t))
    if w is not None:
        return out
    # 2. every token the tagger emits is accepted after reordering
    t = time.time()
    R = (T @ G.FACT).connect()
    sk = G.skeletons(R)
    L = R.copy().project("output")
    VB = rat.CNFA(p.verbalizer)
    out["ob"].append((name + ".tagger: finitely many field layouts (%d)" % len(sk), True, "rat.skeletons", time.time() - t))
    st = G.det(G.STREAM)
    f = (G.delete(st) + G.TOKEN + G.delete(st.star.optimize())) | (G.TOKEN + G.delete(st))
    L2 = (T @ f.optimize()).connect().project("output")
    # invariant: a set of verbalizer configurations closed under reading tokens
    done = []
    level = {None: None}
    rounds = 0
    while level and rounds < 6:
        rounds += 1
        confs = list(level)
        n = 6 if len(sk) > 40 else 1
        lang = L if rounds == 1 else L2
        idx = list(range(len(sk)))
        tasks = [(k, round_job, (p, lang, sk, VB, confs, idx[k::n])) for k in range(n)]
        results = pipes.parallel(tasks, limit=6) if n > 1 else [(0, "ok", round_job(*tasks[0][2]))]
        reached = {}
        for _, status, value in results:
            if status != "ok":
                out["ob"].append((name + " verbalizability decided", False, "rat", 0.0))
                out["soft"].append((name + " verbalizability", value))
                continue
            for i, c, note, w, ends, secs in value:
                if c is None:
                    out["ob"].append((name + " token " + sk[i] + " has distinct fields kept by reordering", False, "token_parser", 0.0))
                    out["soft"].append((name + " token " + sk[i], "field layout: " + note))
                    continue
                via = level[confs[c]]
                label = name + " token " + sk[i] + (" accepted first" if via is None else " accepted after other tokens") + note
                out["ob"].append((label, w is None, "rat.token_contract", secs))
                if w is None:
                    for e, word in ends.items():
                        reached.setdefault(e, word)
                else:
                    report(p, name, out, label, via, w)
        if rounds == 1:
            # only tokens which are followed by others have to chain
            reached = {}
            tasks = [(k, round_job, (p, L2, sk, VB, confs, idx[k::n])) for k in range(n)]
            results = pipes.parallel(tasks, limit=6) if n > 1 else [(0, "ok", round_job(*tasks[0][2]))]
            for _, status, value in results:
                if status != "ok":
                    out["soft"].append((name + " chaining", value))
                    continue
                for i, c, note, w, ends, secs in value:
                    for e, word in ends.items():
                        reached.setdefault(e, word)
        done += confs
        level = {e: reached[e] for e in rat.minimal(reached) if not any(d is not None and d <= e for d in done)}
    out["ob"].append((name + " token chaining invariant is inductive (%d configurations)" % len(done), not level, "rat.token_contract", 0.0))
    if level:
        out["soft"].append((name + " chaining", "no inductive invariant within 6 rounds"))
    # 3. concrete: tag, parse, verbalize
    rng = common.rng(name)
    for x in gen.texts(rng, name, 120 if not common.THOROUGH else 1500):
        tags = []
        try:
            tags = [p.tag(x)] + (p.tag(x, nbest=3) if rng.random() < 0.3 else [])
            for tg in tags:
                p.token_parser().parse(tg)
                p.verbalize(tg)
            ok = True
        except Exception as e:
            ok = False
            out["fail"].append((name + " tag/verbalize", "text %r: %r" % (x, e), pipes.script(name, BODY % x)))
        out["tried"].append((x, tags[:1]))
    return out


def check():
    chk = Check("C16", "proof",
                trusted=["pynini/OpenFst graph construction and arc iteration", "lib/rat.py subset/antichain procedures",
                         "the token-stream grammar of lib/grammar.py (written from the wire-format documentation)"],
                assumptions=["field order is taken from the real token parser run on every field layout the tagger emits"])
    chk.rule = ("contracts range(tagger) in STREAM and reorder(token) in dom(verbalizer) decided on the built FSTs per field layout, "
                "chained over any number of tokens by the closure lemma; plus concrete tag/verbalize runs")
    for name, status, value in pipes.parallel([(n, one, (n,)) for n in pipes.ALL]):
        if status != "ok":
            chk.obligation(name + " decided", False, "rat")
            chk.fail_obligation(name + " well-formedness", value)
            continue
        for ob in value["ob"]:
            chk.obligation(*ob, function=name + ".tagger/.verbalizer/token_parser")
        for x, tags in value["tried"]:
            chk.tried({"pipeline": name, "text": x, "tagged": tags}, (name, x))
        for f in value["fail"]:
            chk.fail_input(*f)
        for f in value["soft"]:
            chk.fail_obligation(*f)
    return chk
