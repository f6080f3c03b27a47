"""Writes /verif/MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python checks/run.py "
RAT = "Contracts over the compiled grammars, decided exactly for all inputs (rational-language inclusion / identity)"
DV = ("Deductive verification of the Python source: PyDV executes the AST of the functions in /repo symbolically against contracts, "
      "loop invariants and induction lemmas, obligations discharged by Z3; plus concrete falsifiers that replay failures")
DVN = "Unbounded for every obligation. Trusts PyDV's Python semantics, Z3 and the trusted models listed in the evidence."
STAND = "Bounded stand-in for the contracts: concrete runs of the real code against an independent specification, with stated generators"
CLAIMS = {
    "C01": (DV, "proof", DVN),
    "C02": (DV, "proof", DVN),
    "C03": (DV, "proof", DVN),
    "C04": (DV, "proof", DVN),
    "C05": (DV + "; byte ownership over the compiled grammars decided exactly", "proof", DVN + " Ownership on every path of the built FSTs is decided by lib/trace.cpp."),
    "C06": (DV, "proof", DVN),
    "C07": (DV, "proof", DVN + " Path costs are reals."),
    "C08": (DV, "proof", DVN + " Stored content, os and JSON results are arbitrary; the Windows branch is not covered."),
    "C09": (STAND, "exploration", "Bounded: seeded generators, see evidence."),
    "C10": (DV, "proof", DVN + " Assumes SHA-256 has no collisions; all option assignments are also run concretely."),
    "C11": (STAND, "exploration", "Bounded: seeded generators, see evidence."),
    "C12": (STAND, "exploration", "Bounded: seeded generators, see evidence."),
    "C13": (DV, "proof", DVN + " flock, clock and os calls are modelled; the Windows branches are not covered."),
    "C14": (DV, "proof", DVN + " argparse is modelled by its documented meaning."),
    "C15": (RAT, "proof", "Unbounded: dom(tagger)=V+ decided on the FST built from the current source. Trusts OpenFst and lib/rat.py."),
    "C16": (RAT + "; loop invariant over token sequences", "proof",
            "Unbounded over texts, analyses and token sequences; field order comes from the real parser per layout. Trusts OpenFst and lib/rat.py."),
    "C20": (RAT, "proof", "Unbounded modulo the listed separators, whose order is only checked on concrete runs. Trusts OpenFst and lib/rat.py."),
}
NOT_APPLICABLE = {}


def main():
    props = [json.loads(x)["id"] for x in open(os.path.join(ROOT, "properties.jsonl"), encoding="utf-8")]
    doc = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python -c \"import sys; sys.path.insert(0, '.'); from lib import common, rat; rat.prepare(); import z3; print('ok')\"",
        "hooks": {"guard": "none", "enable": "no hooks: /repo carries only fix: commits", "source_commits": []},
        "checks": [],
        "not_applicable": [],
    }
    for p in props:
        if p in CLAIMS:
            t, level, note = CLAIMS[p]
            doc["checks"].append({
                "property": p,
                "quick_cmd": "VERIF_TIER=quick " + PY + p,
                "thorough_cmd": "VERIF_TIER=thorough " + PY + p,
                "evidence_file": "evidence/%s.json" % p,
                "technique": t,
                "level": level,
                "level_note": note,
            })
        else:
            doc["not_applicable"].append({"property": p, "reason": NOT_APPLICABLE.get(p, "check under construction")})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w", encoding="utf-8") as f:
        json.dump(doc, f, ensure_ascii=False, indent=1)
        f.write("\n")


main()
