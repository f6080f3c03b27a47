"""C15: every non-empty text has a tag path (grammar totality)."""
import time

from lib import common, gen, grammar, pipes, rat
from lib.common import Check


def one(name):
    out = {"ob": [], "fail": [], "tried": []}
    t = time.time()
    try:
        p = pipes.build(name)
    except Exception as error:
        out["ob"].append((name + ".builds", False, "pynini", time.time() - t, repr(error)))
        out["fail"].append((name + ".builds", "the pipeline cannot be built: %r" % error, pipes.script(name, "")))
        return out
    t = time.time()
    w = rat.total(p.tagger)
    out["ob"].append((name + ".tagger: dom(tagger) = non-empty UTF-8 text", w is None, "rat.included", time.time() - t,
                      "%d states" % p.tagger.num_states()))
    bad = []
    if w is not None:
        bad.append(w.decode("utf-8", "replace"))
    rng = common.rng(name)
    for x in gen.texts(rng, name, 150 if not common.THOROUGH else 1500):
        try:
            tagged = p.tag(x)
            ok = bool(tagged)
        except Exception:
            ok = False
        out["tried"].append((x, ok))
        if not ok:
            bad.append(x)
    for x in bad[:3]:
        body = "x = %r\nassert p.tag(x), 'no tagging for %%r' %% x\nprint('ok')" % x
        out["fail"].append((name + ".tagger totality", "text %r has no tag path" % x, pipes.script(name, body)))
    return out


def check():
    chk = Check("C15", "proof",
                trusted=["pynini/OpenFst graph construction and arc iteration (the verified object is the FST it built)",
                         "lib/rat.py antichain inclusion procedure"],
                assumptions=["U+0000 and surrogates are outside the input alphabet (VALID_UTF8_CHAR)"])
    chk.rule = ("contract dom(tagger) = V+ decided exactly (unbounded) on the FST built from /repo; "
                "plus tag() on generated mixed-script texts; non-trivial = distinct text")
    for name, status, value in pipes.parallel([(n, one, (n,)) for n in pipes.ALL]):
        if status != "ok":
            chk.obligation(name + ".decided", False, "rat.included")
            chk.fail_obligation(name + " totality", value)
            continue
        for ob in value["ob"]:
            chk.obligation(*ob[:4], detail=ob[4], function=name + ".tagger")
        for x, ok in value["tried"]:
            chk.tried({"pipeline": name, "text": x}, (name, x))
        for f in value["fail"]:
            chk.fail_input(*f)
    return chk
