"""C14: the command line processes every line and passes every option on."""
from lib import cachekit, common, pipes, proof, replay
from lib.common import Check
from checks import c08
from contracts import cli

ORACLE = '''
import importlib
import inspect
import io
import re

PIPES = {("tn", "zh"): ("tn.chinese.normalizer", "Normalizer"), ("tn", "en"): ("tn.english.normalizer", "Normalizer"),
         ("tn", "ja"): ("tn.japanese.normalizer", "Normalizer"), ("itn", "zh"): ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
         ("itn", "en"): ("itn.english.inverse_normalizer", "InverseNormalizer"), ("itn", "ja"): ("itn.japanese.inverse_normalizer", "InverseNormalizer")}
REAL = {k: getattr(importlib.import_module(m), c) for k, (m, c) in PIPES.items()}
ARGS = {k: {n: p.default for n, p in inspect.signature(c.__init__).parameters.items() if n != "self"} for k, c in REAL.items()}
OPTIONS = {k: sorted(n for n in v if n not in ("cache_dir", "overwrite_cache")) for k, v in ARGS.items()}
EVERY = sorted({n for v in OPTIONS.values() for n in v})

def fake(key, calls):
    """Stands in for one pipeline and records how it is used."""
    class Fake:
        def __init__(self, *args, **kwargs):
            bound = inspect.signature(REAL[key].__init__).bind(self, *args, **kwargs)
            bound.apply_defaults()
            got = dict(bound.arguments)
            del got["self"]
            calls.append((key, got))

        def tag(self, text, nbest=1):
            return "tag<%s %s>" % (text, "/".join(key))

        def verbalize(self, tagged):
            return "verb<%s>" % tagged

        def normalize(self, text, nbest=1):
            return self.verbalize(self.tag(text))
    return Fake

def command(direction, argv, stdin=b"", lines=None):
    """(exit status, standard output, constructions) of wetn / weitn."""
    calls = []
    for k, (m, c) in PIPES.items():
        setattr(importlib.import_module(m), c, fake(k, calls))
    for m in ("tn.cli", "tn.main", "itn.main"):
        sys.modules.pop(m, None)
    old = sys.argv, sys.stdin, sys.stdout, sys.stderr
    out = io.StringIO()
    status = 0
    try:
        sys.argv = ["we" + direction] + list(argv)
        sys.stdin = io.StringIO(lines, newline="\\n") if lines is not None else io.TextIOWrapper(io.BytesIO(stdin), encoding="utf-8")
        sys.stdout, sys.stderr = out, io.StringIO()
        try:
            importlib.import_module(direction + ".main").main()
        except SystemExit as e:
            status = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = old
        for k, (m, c) in PIPES.items():
            setattr(importlib.import_module(m), c, REAL[k])
        for m in ("tn.cli", "tn.main", "itn.main"):
            sys.modules.pop(m, None)
    return status, out.getvalue(), calls

def printed(key, texts):
    out = ""
    for t in texts:
        tagged = "tag<%s %s>" % (t, "/".join(key))
        out += tagged + "\\n" + "verb<%s>" % tagged + "\\n"
    return out

def options(key, argv, want):
    """argv must construct the pipeline with exactly ``want`` (or be rejected)."""
    direction, language = key
    status, out, calls = command(direction, argv + ["--text", "x"])
    print(argv, status, calls)
    if want is None:
        assert status != 0 and not calls, ("accepted", argv, calls)
        return
    assert status == 0, ("rejected", argv)
    assert len(calls) == 1 and calls[0][0] == key, ("wrong pipeline", argv, calls)
    expected = dict(ARGS[key])
    expected.update(want)
    got = calls[0][1]
    assert got == expected and all(type(got[k]) == type(expected[k]) for k in got), ("options differ", argv, got, expected)
    assert out == printed(key, ["x"]), out

def language(rnd, key):
    lang = key[1]
    if lang == "zh" and rnd.random() < 0.5:
        return []
    return rnd.choice([["--language", lang], ["--language=" + lang]])

def spelled(rnd, name, value):
    names = [name, name.replace("_", "-")]
    n = rnd.choice(names)
    word = rnd.choice(["True", "true", "TRUE"] if value else ["False", "false", "FALSE"])
    forms = [["--" + n, word], ["--%s=%s" % (n, word)]]
    forms.append(["--" + n] if value else ["--no-" + n])
    return rnd.choice(forms)

def random_options(rnd, key):
    argv, want = [], {}
    for _ in range(rnd.choice([0, 1, 1, 2, 3, 6])):
        if not OPTIONS[key]:
            break
        n = rnd.choice(OPTIONS[key])
        v = rnd.random() < 0.5
        argv.append(spelled(rnd, n, v))
        want[n] = v
    if rnd.random() < 0.3:
        d = rnd.choice(["c", "a b", "/x/中", ".", ""])
        argv.append(rnd.choice([["--cache_dir", d], ["--cache-dir", d], ["--cache_dir=" + d]]))
        want["cache_dir"] = d
    if rnd.random() < 0.3:
        argv.append([rnd.choice(["--overwrite_cache", "--overwrite-cache"])])
        want["overwrite_cache"] = True
    k = rnd.random()
    if k < 0.25:
        foreign = [n for n in EVERY if n not in OPTIONS[key]]
        n = rnd.choice(foreign + ["nonsense"])
        argv.append(rnd.choice([["--" + n], ["--" + n + "=True"], ["--no-" + n], ["--" + n.replace("_", "-"), "False"]]))
        want = None
    elif k < 0.35 and OPTIONS[key]:
        argv.append(["--%s=%s" % (rnd.choice(OPTIONS[key]), rnd.choice(["yes", "1", "0", "", "None", "t", "Falsee"]))])
        want = None
    elif k < 0.4:
        argv.append(["--language", rnd.choice(["fr", "ZH", "", "zhen"])])
        want = None
    argv.insert(rnd.randint(0, len(argv)), language(rnd, key))
    return [a for part in argv for a in part], want

def source(key, argv, kind, data):
    """data: raw bytes of the input; every line is processed, in order."""
    direction, lang = key
    text = data.decode("utf-8")
    lines = re.split("\\r\\n|\\r|\\n", text)
    if lines[-1] == "":
        lines.pop()
    argv = argv + ["--language", lang]
    if kind == "stdin":
        status, out, calls = command(direction, argv, stdin=data)
    elif kind == "file":
        with scratch() as top:
            with open(top + "/input", "wb") as f:
                f.write(data)
            status, out, calls = command(direction, argv + ["--file", top + "/input"])
    elif kind == "lines":
        # a standard input that splits at newlines only
        lines = text.split("\\n")
        if lines[-1] == "":
            lines.pop()
            lines = [l[:-1] if l.endswith("\\r") else l for l in lines]
        else:
            lines = [l[:-1] if l.endswith("\\r") else l for l in lines]
        status, out, calls = command(direction, argv, lines=text)
    else:
        lines = [text]
        status, out, calls = command(direction, argv + rnd_text(text))
    print(kind, repr(out), lines)
    assert status == 0 and len(calls) == 1 and calls[0][0] == key, (status, calls)
    assert out == printed(key, lines), ("lines differ", kind, out, printed(key, lines))

def rnd_text(text):
    return ["--text=" + text]

CHARS = ["a", "中", " ", "  ", "\\t", "\\x0b", "\\x0c", "\\x1c", "\\x1d", "\\x85", "\\u2028", "\\u2029", "\\u3000", "\\u00a0", "é", "😀", "\\ufeff", "0", "\\"", "\\\\", "-", "--text", "\\x00"]

def random_source(rnd):
    key = rnd.choice(sorted(PIPES))
    kind = rnd.choice(["stdin", "file", "lines", "text"])
    line = lambda: "".join(rnd.choice(CHARS) for _ in range(rnd.choice([0, 1, 1, 2, 4])))
    if kind == "text":
        return key, [], kind, line().encode()
    end = ["\\n", "\\n", "\\r\\n", "\\r", "\\n\\n", "\\r\\r\\n", "\\n\\r"]
    text = "".join(line() + rnd.choice(end) for _ in range(rnd.choice([0, 1, 2, 3, 6]))) + rnd.choice(["", line()])
    return key, [], kind, text.encode()

def conflicts():
    with scratch() as top:
        with open(top + "/f", "w") as f:
            f.write("q\\n")
        for d in ("tn", "itn"):
            for argv in (["--text", "a", "--file", top + "/f"], ["--file", top + "/missing"], ["--file", top], ["--bogus"], ["extra"]):
                status, out, _ = command(d, argv)
                assert status != 0 and out == "", (d, argv, status, out)
            status, out, calls = command(d, ["--text", ""])
            assert status == 0 and out == printed((d, "zh"), [""]), (status, out)

def real(direction, lang, texts):
    """The installed command on the real pipeline."""
    import subprocess
    m, c = PIPES[direction, lang]
    with scratch() as top:
        p = REAL[direction, lang](cache_dir=top + "/c")
        want = "".join("%s\\n%s\\n" % (p.tag(t), p.verbalize(p.tag(t))) for t in texts)
        with open(top + "/f", "w", encoding="utf-8", newline="") as f:
            f.write("\\r\\n".join(texts))
        code = "import sys; sys.dont_write_bytecode = True; sys.path.insert(0, %r); sys.argv[0] = 'x'; from %s.main import main; main()" % (sys.path[0], direction)
        for extra, stdin in ((["--file", top + "/f"], ""), ([], "\\n".join(texts) + "\\n")):
            r = subprocess.run([sys.executable, "-c", code, "--language", lang, "--cache_dir", top + "/c"] + extra, input=stdin.encode(), capture_output=True,
                               env=dict(os.environ, PYTHONIOENCODING="utf-8"), cwd=top)
            assert r.returncode == 0, r.stderr
            assert r.stdout.decode() == want, (r.stdout.decode(), want)
'''


def work(part, parts):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit), print=lambda *a: None)
    exec(ORACLE, scope)
    rng = common.rng("C14")
    jobs = [("sources", "conflicts()")]
    if part < 2:
        jobs += [("installed command", "real(%r, 'ja', ['2021年', '', '  a ', '百二十', '1/2'])" % d) for d in ("tn", "itn")][part:part + 1] * parts
    for key in sorted(scope["PIPES"]):
        jobs.append(("options", "options(%r, %r, {})" % (key, ["--language", key[1]])))
        for n in scope["EVERY"]:
            for v in (True, False):
                for n2 in (n, n.replace("_", "-")):
                    forms = [["--%s=%s" % (n2, v)], ["--" + n2, str(v).lower()], ["--" + n2] if v else ["--no-" + n2]]
                    for f in forms:
                        jobs.append(("options", "options(%r, %r, %r)" % (key, f + ["--language", key[1]], {n: v} if n in scope["OPTIONS"][key] else None)))
    for _ in range(3000 if common.THOROUGH else 700):
        key = rng.choice(sorted(scope["PIPES"]))
        argv, want = scope["random_options"](rng, key)
        jobs.append(("options", "options(%r, %r, %r)" % (key, argv, want)))
        jobs.append(("lines", "source(*%r)" % (scope["random_source"](rng),)))
    for name, call in jobs[part::parts]:
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call, e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    return out


def check():
    chk = Check("C14", "proof",
                trusted=["argparse: the last occurrence of an option decides, an omitted destination takes the default of its first action, anything else is refused; "
                         "the selecting parser and the full parser read the same --language",
                         "print writes its one text and a newline; iterating a text stream yields its lines in order with their endings"],
                assumptions=["what the pipeline's tag and verbalize return is a function of the text (C02, C16); they may raise anything but OSError",
                             "str.lower and str.casefold agree on which texts are 'true' and 'false'"])
    chk.rule = "the real entry points with recording stand-ins for the six pipelines: every option in every spelling, random combinations, random line contents and endings from all three sources"
    proof.prove(chk, "C14", cli.prove, 200)
    c08.falsify(chk, work)
    return chk
