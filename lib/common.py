"""Shared plumbing of the checks: obligations, violations, replays, evidence."""
import atexit
import hashlib
import json
import logging
import os
import random
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
TOOLS = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
EVIDENCE = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(EVIDENCE, "replay")

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
if TOOLS not in sys.path:
    sys.path.append(TOOLS)
logging.disable(logging.INFO)


def known_findings(pid):
    """key -> text for the findings of this property (fixed: lines suppress nothing)."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.rstrip("\n")
            if line.startswith("finding: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out[key[len("key="):]] = text
    return out


def rng(*key):
    """Seeded generator, the same on every run with the same VERIF_SEED."""
    return random.Random("%d/%s" % (SEED, "/".join(map(str, key))))


class Check:

    def __init__(self, pid, level, technique="", trusted=(), assumptions=()):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.obligations = []
        self.functions = []
        self.trusted = list(trusted)
        self.assumptions = list(assumptions)
        self.evaluations = 0
        self.nontrivial = set()
        self.rule = ""
        self.samples = []
        self.extra = {}
        self.violations = []
        self.known = known_findings(pid)
        self.known_hit = []
        self.bounded = []
        self.technique = technique
        os.makedirs(REPLAY, exist_ok=True)

    # ---------------------------------------------------------------- results
    def obligation(self, name, ok, backend, seconds=0.0, detail="", bounded=False, function=None):
        self.obligations.append({
            "name": name,
            "ok": bool(ok),
            "backend": backend,
            "seconds": round(seconds, 3),
            "bounded": bool(bounded),
            "detail": str(detail)[:400],
        })
        if function and function not in self.functions:
            self.functions.append(function)

    def tried(self, case, key=None):
        """Counts one concrete evaluation of the real code."""
        self.evaluations += 1
        if key is not None:
            self.nontrivial.add(hashlib.sha1(repr(key).encode("utf-8", "surrogatepass")).digest()[:8])
        if len(self.samples) < 12 and (self.evaluations < 4 or self.evaluations % 97 == 0):
            self.samples.append(case if isinstance(case, (str, int, dict)) else repr(case)[:300])

    def fail_input(self, obligation, message, script, key=None):
        """A concrete input on which the real code breaks the property.

        ``script`` is a self-contained Python program which exits non-zero
        (assertion) on the failing input.
        """
        key = key or hashlib.sha1(script.encode("utf-8", "surrogatepass")).hexdigest()[:12]
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit.append(key)
            return
        if any(v["kind"] == "input" and v["obligation"] == obligation for v in self.violations):
            return
        self.violations.append({
            "kind": "input",
            "obligation": obligation,
            "message": message,
            "script": script
        })

    def fail_obligation(self, obligation, output):
        self.violations.append({"kind": "obligation", "obligation": obligation, "message": output})

    # ---------------------------------------------------------------- finish
    def finish(self):
        # one failed obligation with a concrete input makes the input-less
        # report of the same obligation redundant
        inputs = [v for v in self.violations if v["kind"] == "input"]
        others = [v for v in self.violations if v["kind"] != "input"]
        lines = []
        for n, v in enumerate(inputs[:5]):
            path = os.path.join(REPLAY, "%s-%d.py" % (self.pid, n + 1))
            with open(path, "w", encoding="utf-8", errors="surrogatepass") as f:
                f.write("# property %s, obligation %s\n" % (self.pid, v["obligation"]))
                for line in str(v["message"]).splitlines():
                    f.write("# " + line.encode("utf-8", "backslashreplace").decode() + "\n")
                f.write("import sys; sys.path.insert(0, %r)\n" % REPO)
                f.write(v["script"] + "\n")
            lines.append("VIOLATION property=%s replay=%s" % (self.pid, path))
        if not inputs:
            for n, v in enumerate(others[:5]):
                path = os.path.join(REPLAY, "%s-obligation-%d.txt" % (self.pid, n + 1))
                with open(path, "w", encoding="utf-8", errors="backslashreplace") as f:
                    f.write("property %s\nfailed obligation: %s\n\n%s\n" % (self.pid, v["obligation"], v["message"]))
                lines.append("VIOLATION property=%s replay=%s no-failing-input-found" % (self.pid, path))
        self.write_evidence()
        for key in self.known_hit:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
        for v in (inputs or others)[:5]:
            print("%s: %s: %s" % (self.pid, v["obligation"], str(v["message"])[:600]))
        for line in lines:
            print(line)
        proved = sum(1 for o in self.obligations if o["ok"] and not o["bounded"])
        print("%s: %d obligations, %d discharged, %d concrete evaluations, %.1fs: %s" %
              (self.pid, len(self.obligations), proved, self.evaluations, time.time() - self.t0,
               "VIOLATED" if lines else "holds"))
        sys.stdout.flush()
        return 1 if lines else 0

    def write_evidence(self):
        backends = {}
        for o in self.obligations:
            b = backends.setdefault(o["backend"], {"obligations": 0, "discharged": 0, "seconds": 0.0})
            b["obligations"] += 1
            b["discharged"] += 1 if o["ok"] else 0
            b["seconds"] = round(b["seconds"] + o["seconds"], 3)
        unb = [o for o in self.obligations if not o["bounded"]]
        coverage = {
            "obligations": len(unb),
            "discharged": sum(1 for o in unb if o["ok"]),
            "checker_cmd": "cd /verif && VERIF_TIER=%s /opt/venv/bin/python checks/run.py %s" % (TIER, self.pid),
            "trusted_base": self.trusted,
            "functions_under_contract": self.functions,
            "by_backend": backends,
            "obligation_list": self.obligations[:400],
            "evaluations": self.evaluations,
            "distinct_nontrivial": len(self.nontrivial),
            "rule": self.rule or "concrete runs of the real code used to look for a failing input",
            "samples": self.samples,
        }
        bounded = [o for o in self.obligations if o["bounded"]]
        if bounded:
            coverage["bounded_stand_ins"] = bounded
        if self.level == "other":
            coverage["explanation"] = self.rule
        coverage.update(self.extra)
        doc = {
            "property": self.pid,
            "tier": TIER if TIER in ("quick", "thorough") else "quick",
            "seed": SEED,
            "level": self.level,
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(self.violations),
        }
        text = json.dumps(doc, ensure_ascii=False, indent=1).encode("utf-8", "backslashreplace")
        with open(os.path.join(EVIDENCE, self.pid + ".json"), "wb") as f:
            f.write(text + b"\n")


def run_check(fn, pid):
    """Runs one check; an exception escaping it is a failed obligation."""
    try:
        chk = fn()
    except BaseException as error:  # noqa: the code under test may raise anything
        if isinstance(error, KeyboardInterrupt):
            raise
        chk = Check(pid, "other")
        chk.rule = "the check could not be completed"
        chk.obligation("check-completed", False, "python")
        chk.fail_obligation("check-completed", traceback.format_exc())
    return chk.finish()
