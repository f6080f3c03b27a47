"""Contracts of tn.cli (C14).

``argparse`` is a dependency: a parser is the list of the options it was
given, and its documented meaning (the last occurrence of an option decides,
an omitted destination takes the default of its first action, anything else
is refused) turns that list into the statement about accepted spellings."""
import argparse
import importlib
import inspect
import sys

import z3

from lib import pipes, pydv
from lib.pydv import BOOL, INT, STR, Contract, Loop, Method, Opaque, PDict, PList, S, Sym, seq, zint
from contracts.models import conj

MOD = "tn.cli"
DIRECTIONS = ("tn", "itn")
PIPES = {("tn", "zh"): ("tn.chinese.normalizer", "Normalizer"), ("tn", "en"): ("tn.english.normalizer", "Normalizer"),
         ("tn", "ja"): ("tn.japanese.normalizer", "Normalizer"), ("itn", "zh"): ("itn.chinese.inverse_normalizer", "InverseNormalizer"),
         ("itn", "en"): ("itn.english.inverse_normalizer", "InverseNormalizer"), ("itn", "ja"): ("itn.japanese.inverse_normalizer", "InverseNormalizer")}
COMMON = ("cache_dir", "overwrite_cache")
LOWER = z3.Function("LOWER", STR, STR)


def stripped(line):
    """The line without its line ending."""
    n = z3.Length(line)
    ending = z3.If(z3.SuffixOf(seq("\r\n"), line), 2, z3.If(z3.Or(z3.SuffixOf(seq("\n"), line), z3.SuffixOf(seq("\r"), line)), 1, 0))
    return z3.SubSeq(line, 0, n - ending)


def bad(message):
    raise pydv.Unsupported(message)


def signature(key):
    """The constructor parameters and defaults of a pipeline."""
    module, cls = PIPES[key]
    real = getattr(importlib.import_module(module), cls)
    return {n: p.default for n, p in inspect.signature(real.__init__).parameters.items() if n != "self"}


def yes(value):
    return z3.BoolVal(bool(value)) if isinstance(value, bool) else value


# ------------------------------------------------------------ small functions
class ParseBool(Contract):
    target = MOD + ":_parse_bool"
    min_returns = 3

    def setup(self, I):
        if I.ctx.choose("already a boolean"):
            return [I.ctx.fresh("flag", BOOL)], {}
        return [LowerText(I.ctx.fresh("value", STR))], {}

    def post(self, I, old, args, kwargs, result):
        v = args[0]
        if not pydv.is_bool(result):
            yield "the value is a boolean", z3.BoolVal(False)
            return
        r = pydv.zbool(result)
        if pydv.is_bool(v):
            yield "a boolean is kept", r == v
        else:
            yield "true and false are read", LOWER(v.term) == z3.If(r, seq("true"), seq("false"))

    def refused(self, I, old, args, kwargs, exc):
        v = args[0]
        yield "only other words are refused", z3.BoolVal(False) if pydv.is_bool(v) else z3.And(LOWER(v.term) != seq("true"), LOWER(v.term) != seq("false"))

    raises = {argparse.ArgumentTypeError: refused}


class LowerText(Sym):
    """A text whose lower-case form is a function of the text."""

    frozen = True

    def __init__(self, term):
        super().__init__()
        self.term = term

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name in ("lower", "casefold") and not args:
            # for the words of interest both give the same answer
            return S(LOWER(self.term))
        bad("str.%s" % name)

    def py_eq(self, I, other):
        return self.term == seq(other) if pydv.is_str(other) else False

    def py_isinstance(self, I, c):
        return c in (str, object)


class WithoutEnding(Contract):
    target = MOD + ":_without_line_ending"

    def setup(self, I):
        return [S(I.ctx.fresh("line", STR))], {}

    def result(self, I, args, kwargs):
        return S(stripped(seq(args[0])))

    def post(self, I, old, args, kwargs, result):
        line = seq(args[0])
        out = seq(result) if pydv.is_str(result) else None
        if out is None:
            yield "the result is a text", z3.BoolVal(False)
            return
        yield "exactly the line ending is removed", out == stripped(line)


# --------------------------------------------------------------- the processor
class Processor(Sym):
    """The constructed pipeline: tag and verbalize are its methods."""

    frozen = True
    TAG = z3.Function("TAG", STR, STR)
    VERB = z3.Function("VERB", STR, STR)

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name in ("tag", "verbalize") and len(args) == 1 and not kwargs and pydv.is_str(args[0]):
            if I.ctx.choose("%s raises" % name):
                raise pydv.PyRaise(pydv.ExcVal(ProcessorError, ()))
            return S((self.TAG if name == "tag" else self.VERB)(seq(args[0])))
        bad("processor.%s" % name)


class ProcessorError(Exception):
    """Whatever the pipeline raises."""


class Output(Sym):
    """Standard output: the lines printed by one call (``lines``), and in
    ``run`` the number of lines printed so far (``count``)."""

    def __init__(self, count):
        super().__init__(lines=(), count=count)

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        bad("output.%s" % name)


def print_model(I, args, kwargs):
    kwargs = dict(kwargs)
    stream = kwargs.pop("file", None)
    kwargs.pop("flush", None)
    if kwargs.pop("end", "\n") != "\n" or kwargs or len(args) != 1 or not pydv.is_str(args[0]):
        bad("print of something else")
    w = I.globals_ghost.get("cli")
    if w is not None:
        stream = w.standard(I, stream)
        k = stream.get("count")
        t = Processor.TAG(w.expected(k / 2))
        I.ctx.prove("there is a line left", k < 2 * w.COUNT)
        I.ctx.prove("the next tag or verbalization is printed", seq(args[0]) == z3.If(k % 2 == 0, t, Processor.VERB(t)))
        stream.set(I, "count", k + 1)
        return None
    if not isinstance(stream, Output):
        bad("print to something else")
    stream.set(I, "lines", stream.get("lines") + (seq(args[0]),))
    return None


class ProcessLine(Contract):
    target = MOD + ":_process_line"

    def setup(self, I):
        return [I.sym(Processor()), S(I.ctx.fresh("text", STR)), I.sym(Output(z3.IntVal(0)))], {}

    def frame(self, I, args, kwargs):
        p, text, out = self.parts(args, kwargs)
        return [(out, "lines"), (out, "count")]

    def parts(self, args, kwargs):
        v = dict(zip(("processor", "text", "stdout"), args))
        v.update(kwargs)
        return v["processor"], v["text"], v["stdout"]

    def post(self, I, old, args, kwargs, result):
        p, text, out = self.parts(args, kwargs)
        lines = out.get("lines")
        t = Processor.TAG(seq(text))
        yield "exactly the tag and its verbalization are printed", conj([z3.BoolVal(len(lines) == 2)] + [a == b for a, b in zip(lines, (t, Processor.VERB(t)))])

    def failed(self, I, old, args, kwargs, exc):
        return ()

    raises = {ProcessorError: failed}

    def apply(self, I, args, kwargs):
        """Call from ``run``: the text is the next expected one."""
        p, text, out = self.parts(args, kwargs)
        w = I.globals_ghost["cli"]
        I.ctx.prove("the constructed pipeline is used", yes(p is w.processor))
        out = w.standard(I, out)
        k = out.get("count")
        I.ctx.prove("between two lines and with a line left", z3.And(k % 2 == 0, k < 2 * w.COUNT))
        I.ctx.prove("the text is the next line without its ending", seq(text) == w.expected(k / 2) if pydv.is_str(text) else z3.BoolVal(False))
        if I.ctx.choose("the pipeline raises"):
            raise pydv.PyRaise(pydv.ExcVal(ProcessorError, ()))
        out.set(I, "count", k + 2)
        return None


# ------------------------------------------------------------------ the parser
class Parser(Sym):
    """argparse.ArgumentParser: the options it was given, in order."""

    def __init__(self, settings):
        super().__init__(actions=(), group=None)
        self.settings = settings

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "add_argument":
            self.set(I, "actions", self.get("actions") + (action(args, kwargs, None),))
            return None
        if name == "add_mutually_exclusive_group":
            if args or set(kwargs) - {"required"} or kwargs.get("required"):
                bad("a required group")
            return I.sym(Group(self))
        if name == "parse_known_args" and len(args) == 1:
            w = I.globals_ghost["argv"]
            I.ctx.prove("the given arguments are parsed", yes(args[0] is w))
            self.only_language(I)
            if I.ctx.choose("refused"):
                raise pydv.PyRaise(pydv.ExcVal(SystemExit, (2,)))
            return (I.sym(Namespace({"language": Language()})), Opaque("rest"))
        bad("parser.%s" % name)

    def only_language(self, I):
        from tn import cli
        a = self.get("actions")
        I.ctx.prove("the language is looked for with its default", yes(
            len(a) == 1 and same(a[0], {"names": frozenset(["--language"]), "dest": "language", "choices": frozenset(cli.LANGUAGES), "default": "zh", "group": None})))
        I.ctx.prove("help is left to the full parser", yes(self.settings.get("add_help", True) is False))


class Group(Sym):

    def __init__(self, parser):
        super().__init__()
        self.parser = parser

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "add_argument":
            self.parser.set(I, "actions", self.parser.get("actions") + (action(args, kwargs, self),))
            return None
        bad("group.%s" % name)


def plain(value):
    if isinstance(value, (PList, tuple, list)):
        return frozenset(plain(x) for x in (value.items if isinstance(value, PList) else value))
    return value


def action(names, kwargs, group):
    """One option as argparse documents it."""
    out = {k: plain(v) for k, v in kwargs.items() if k not in ("help", "metavar")}
    if not all(isinstance(n, str) and n.startswith("--") for n in names):
        bad("a positional or short option")
    out["names"] = frozenset(names)
    out["group"] = group
    # argparse takes the first long option as the destination
    out.setdefault("dest", names[0][2:].replace("-", "_"))
    if out.get("action") == "store":
        del out["action"]
    if out.get("action") in ("store_true", "store_false"):
        out.setdefault("default", out["action"] == "store_false")
    else:
        out.setdefault("default", None)
    if out.get("required") is False:
        del out["required"]
    return out


def same(a, want):
    return set(a) == set(want) and all(a[k] is want[k] or (type(a[k]) is type(want[k]) and a[k] == want[k]) for k in want)


def is_parse_bool(value):
    return isinstance(value, pydv.UFunc) and value.qualname == ParseBool.target


def option_checks(actions, key):
    """(name, truth) obligations of the parser of one pipeline."""
    params = signature(key)
    options = [n for n in params if n not in COMMON]
    known = set()
    for n in options:
        hyphen = n.replace("_", "-")
        mine = [a for a in actions if a["dest"] == n]
        on = frozenset(["--" + n, "--" + hyphen])
        off = frozenset(["--no-" + n, "--no-" + hyphen])
        known |= on | off
        first = mine[0] if mine else {}
        yield "%s: --%s [True|False] and --no-%s, in every spelling" % (n, n, n), (
            len(mine) == 2 and is_parse_bool(first.get("type"))
            and same({k: v for k, v in first.items() if k not in ("type", "default")}, {"names": on, "dest": n, "nargs": "?", "const": True, "group": None})
            and same({k: v for k, v in mine[1].items() if k != "default"}, {"names": off, "dest": n, "action": "store_false", "group": None}))
        yield "%s: omitted, the pipeline's own default is used" % n, "default" in first and first["default"] is params[n]
    mine = [a for a in actions if a["dest"] == "cache_dir"]
    on = frozenset(["--cache_dir", "--cache-dir"])
    known |= on
    yield "cache_dir is passed as given", len(mine) == 1 and same(mine[0], {"names": on, "dest": "cache_dir", "default": params.get("cache_dir", "missing"), "group": None})
    mine = [a for a in actions if a["dest"] == "overwrite_cache"]
    on = frozenset(["--overwrite_cache", "--overwrite-cache"])
    known |= on
    yield "overwrite_cache is a switch", len(mine) == 1 and params.get("overwrite_cache") is False and same(
        mine[0], {"names": on, "dest": "overwrite_cache", "action": "store_true", "default": False, "group": None})
    from tn import cli
    known.add("--language")
    mine = [a for a in actions if a["dest"] == "language"]
    yield "the language is one of the three", len(mine) == 1 and same(
        mine[0], {"names": frozenset(["--language"]), "dest": "language", "choices": frozenset(cli.LANGUAGES), "default": "zh", "group": None})
    pair = [a for a in actions if a["dest"] in ("text", "file")]
    known |= {"--text", "--file"}
    yield "text and file exclude each other and are passed as given", (
        len(pair) == 2 and pair[0]["group"] is not None and pair[0]["group"] is pair[1]["group"]
        and all(same({k: v for k, v in a.items() if k != "group"}, {"names": frozenset(["--" + d]), "dest": d, "default": None}) for a, d in zip(sorted(pair, key=lambda a: a["dest"]), ("file", "text"))))
    every = [n for a in actions for n in a["names"]]
    yield "no other option is accepted", set(every) == known and len(every) == len(known)
    foreign = {n for k in PIPES for n in signature(k)} - set(params)
    spelled = {p + f for n in foreign for p in ("--", "--no-") for f in (n, n.replace("_", "-"))}
    yield "no option of another pipeline abbreviates an accepted one", not any(a.startswith(f) for a in every for f in spelled)


class CreateParser(Contract):
    target = MOD + ":create_parser"
    min_returns = 6

    def setup(self, I):
        for key in sorted(PIPES):
            if I.ctx.choose("/".join(key)):
                return [key[0], key[1]], {}
        if I.ctx.choose("unknown direction"):
            return ["sideways", "zh"], {}
        return ["tn", "fr"], {}

    def key(self, args, kwargs):
        v = {"language": "zh"}
        v.update(zip(("direction", "language"), args))
        v.update(kwargs)
        return v["direction"], v["language"]

    def post(self, I, old, args, kwargs, result):
        key = self.key(args, kwargs)
        if key not in PIPES or not isinstance(result, Parser):
            yield "only known languages have a parser", z3.BoolVal(False)
            return
        for name, truth in option_checks(result.get("actions"), key):
            yield "%s %s: %s" % (key + (name,)), yes(truth)
        yield "abbreviations, prefixes and help are argparse's own", yes(not set(result.settings) - {"description", "prog", "usage", "epilog"})

    def refused(self, I, old, args, kwargs, exc):
        yield "only unknown languages are refused", yes(self.key(args, kwargs) not in PIPES)

    raises = {ValueError: refused}

    def apply(self, I, args, kwargs):
        return I.sym(ParserOf(*self.key(args, kwargs)))


class Language(Sym):
    """The selected language of the given arguments."""

    frozen = True

    def py_getattr(self, I, name):
        bad("language.%s" % name)


class ParserOf(Sym):
    """The result of create_parser: its direction and language."""

    frozen = True

    def __init__(self, direction, language):
        super().__init__()
        self.direction, self.language = direction, language

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_method(self, I, name, args, kwargs):
        if name == "error":
            raise pydv.PyRaise(pydv.ExcVal(SystemExit, (2,)))
        if name == "parse_args" and len(args) == 1:
            I.ctx.prove("the given arguments are parsed", yes(args[0] is I.globals_ghost["argv"]))
            if I.ctx.choose("refused"):
                raise pydv.PyRaise(pydv.ExcVal(SystemExit, (2,)))
            return I.sym(Namespace({}, self))
        bad("parser.%s" % name)


class Namespace(Sym):
    frozen = True

    def __init__(self, values, of=None):
        super().__init__()
        self.values, self.of = values, of

    def py_getattr(self, I, name):
        if name not in self.values:
            raise pydv.PyRaise(pydv.ExcVal(AttributeError, (name,)))
        return self.values[name]


class Argv(Sym):
    frozen = True

    def __init__(self, of=None):
        super().__init__()
        self.of = of

    def py_getattr(self, I, name):
        return Method(self, name)

    def py_getitem(self, I, index):
        if isinstance(index, slice) and (index.start, index.stop, index.step) == (1, None, None):
            return I.globals_ghost["sys.argv[1:]"]
        bad("item of sys.argv")


def system_exit(self, I, old, args, kwargs, exc):
    return ()


class SelectedLanguage(Contract):
    target = MOD + ":_selected_language"

    def setup(self, I):
        I.globals_ghost["argv"] = I.sym(Argv())
        return [I.globals_ghost["argv"]], {}

    def post(self, I, old, args, kwargs, result):
        yield "the selected language is returned", yes(isinstance(result, Language))

    def apply(self, I, args, kwargs):
        I.ctx.prove("the language of the given arguments", yes(args[0] is I.globals_ghost["argv"]))
        if I.ctx.choose("refused"):
            raise pydv.PyRaise(pydv.ExcVal(SystemExit, (2,)))
        return I.sym(Language())

    raises = {SystemExit: system_exit}


class ParseArgs(Contract):
    target = MOD + ":parse_args"
    min_returns = 2

    def setup(self, I):
        mine = I.globals_ghost["sys.argv[1:]"] = I.sym(Argv())
        direction = "tn" if I.ctx.choose("tn") else "itn"
        I.globals_ghost["direction"] = direction
        if I.ctx.choose("argv is given"):
            mine = I.sym(Argv())
            I.globals_ghost["argv"] = mine
            return [direction, mine], {}
        I.globals_ghost["argv"] = mine
        return [direction], {}

    def post(self, I, old, args, kwargs, result):
        ok = isinstance(result, Namespace) and isinstance(result.of, ParserOf)
        yield "the parser of the direction and the selected language reads them", yes(
            ok and result.of.direction == I.globals_ghost["direction"] and isinstance(result.of.language, Language))

    def apply(self, I, args, kwargs):
        w = I.globals_ghost["cli"]
        v = {"argv": None}
        v.update(zip(("direction", "argv"), args))
        v.update(kwargs)
        I.ctx.prove("the command's own direction and arguments are parsed", yes(v["direction"] == w.direction and v["argv"] is w.argv))
        if I.ctx.choose("refused"):
            raise pydv.PyRaise(pydv.ExcVal(SystemExit, (2,)))
        return w.args

    raises = {SystemExit: system_exit}


# ------------------------------------------------------------- the constructor
class Pipeline:
    """Construction of one pipeline: recorded."""

    def __init__(self, key):
        self.key = key
        self.target = "%s:%s" % PIPES[key]

    def apply(self, I, args, kwargs):
        names = list(signature(self.key))
        given = dict(zip(names, args))
        if set(given) & set(kwargs) or set(kwargs) - set(names) or len(args) > len(names):
            raise pydv.PyRaise(pydv.ExcVal(TypeError, ("arguments",)))
        given.update(kwargs)
        return I.sym(Built(self.key, given))


class Built(Sym):
    frozen = True

    def __init__(self, key, given):
        super().__init__()
        self.key, self.given = key, given

    def py_getattr(self, I, name):
        bad("attribute of a pipeline")


class CreateProcessor(Contract):
    target = MOD + ":create_processor"
    min_returns = 6

    def setup(self, I):
        key = None
        for k in sorted(PIPES)[:-1]:
            if I.ctx.choose("/".join(k)):
                key = k
                break
        key = key or sorted(PIPES)[-1]
        values = {n: Opaque("value of " + n) for n in signature(key)}
        values["language"] = key[1]
        values["text"], values["file"] = Opaque("text"), Opaque("file")
        I.globals_ghost["key"], I.globals_ghost["values"] = key, values
        return [key[0], I.sym(Namespace(values))], {}

    def post(self, I, old, args, kwargs, result):
        key, values = I.globals_ghost["key"], I.globals_ghost["values"]
        yield "%s %s: its own pipeline is constructed" % key, yes(isinstance(result, Built) and result.key == key)
        for n in signature(key):
            yield "%s %s: %s reaches the pipeline" % (key + (n,)), yes(isinstance(result, Built) and result.given.get(n) is values[n])

    def apply(self, I, args, kwargs):
        w = I.globals_ghost["cli"]
        I.ctx.prove("the command's own direction and arguments select the pipeline", yes(len(args) == 2 and args[0] == w.direction and args[1] is w.args))
        return w.processor


class Factory(Sym):
    """A processor_factory given by the caller."""

    frozen = True

    def py_call(self, I, args, kwargs):
        return CreateProcessor().apply(I, args, kwargs)


# ------------------------------------------------------------------------- run
class World:

    def __init__(self, I):
        c = I.ctx
        self.direction = "tn" if c.choose("tn") else "itn"
        self.processor = I.sym(Processor())
        self.out = I.sym(Output(z3.IntVal(0)))
        self.argv = I.sym(Argv()) if c.choose("argv is given") else None
        self.text = S(c.fresh("text", STR))
        self.path = S(c.fresh("path", STR))
        self.kind = "text" if c.choose("--text") else ("file" if c.choose("--file") else "stdin")
        self.LINES = c.fresh("LINES", INT)
        c.assume(self.LINES >= 0)
        self.RAW = c.fresh_fn("RAW", INT, STR)
        self.COUNT = z3.IntVal(1) if self.kind == "text" else self.LINES
        self.args = I.sym(Namespace({"text": self.text if self.kind == "text" else None, "file": self.path if self.kind == "file" else None, "language": Opaque("language")}))
        self.source = I.sym(Lines(self, self.kind))

    def standard(self, I, stream):
        """The output stream in use: the given one, or else sys.stdout."""
        I.ctx.prove("standard output is used", yes(stream is self.out if self.given else isinstance(stream, StdOut)))
        return self.out

    def expected(self, k):
        return seq(self.text) if self.kind == "text" else stripped(self.RAW(k))


class ReadError(OSError):
    pass


class Lines(Sym):
    """The lines of standard input or of the opened file."""

    frozen = True

    def __init__(self, w, kind):
        super().__init__()
        self.w, self.kind = w, kind

    def py_iter(self, I):
        w = self.w

        def line(I, i):
            if w.kind == "file" and I.ctx.choose("reading fails"):
                raise pydv.PyRaise(pydv.ExcVal(ReadError, ()))
            return S(w.RAW(i))

        I.ctx.prove("the selected source is read", yes(self.kind == w.kind))
        it = pydv.IndexIter(w.LINES, line)
        it.contract = LineLoop()
        return it

    def py_enter(self, I):
        return self

    def py_exit(self, I, exc):
        return False

    def py_getattr(self, I, name):
        return Method(self, name)


def open_model(I, args, kwargs):
    w = I.globals_ghost.get("cli")
    kwargs = dict(kwargs)
    mode = args[1] if len(args) > 1 else kwargs.pop("mode", "r")
    ok = (w is not None and args[0] is w.path and mode in ("r", "rt") and kwargs.pop("encoding", None) in ("utf-8", "utf8") and kwargs.pop("newline", None) in (None, "")
          and kwargs.pop("errors", "strict") in ("strict", None) and not kwargs and len(args) <= 2)
    I.ctx.prove("the given file is opened as UTF-8 text", yes(ok))
    if I.ctx.choose("opening fails"):
        raise pydv.PyRaise(pydv.ExcVal(FileNotFoundError, ()))
    return w.source


class StandardInput(Sym):
    frozen = True

    def py_iter(self, I):
        w = I.globals_ghost["cli"]
        I.ctx.prove("sys.stdin is read only when no source is given", yes(w.kind == "stdin" and not w.given))
        return w.source.py_iter(I)

    def py_getattr(self, I, name):
        return Method(self, name)


class Run(Contract):
    target = MOD + ":run"
    min_returns = 6

    def setup(self, I):
        w = I.globals_ghost["cli"] = World(I)
        kwargs = {}
        w.given = I.ctx.choose("the streams are given")
        if w.given:
            kwargs["stdin"] = w.source if w.kind == "stdin" else I.sym(Lines(w, "other"))
            kwargs["stdout"] = w.out
        if I.ctx.choose("a factory is given"):
            kwargs["processor_factory"] = I.sym(Factory())
        if w.argv is not None:
            kwargs["argv"] = w.argv
        return [w.direction], kwargs

    def frame(self, I, args, kwargs):
        w = I.globals_ghost.get("cli")
        return [(w.out, "count")] if w else []

    def post(self, I, old, args, kwargs, result):
        w = I.globals_ghost["cli"]
        yield "every line was processed, once and in order", w.out.get("count") == 2 * w.COUNT
        yield "the pipeline is returned", yes(result is w.processor)

    def failed(self, I, old, args, kwargs, exc):
        return ()

    raises = {SystemExit: system_exit, ProcessorError: failed}

    def apply(self, I, args, kwargs):
        I.globals_ghost.setdefault("ran", []).append((tuple(args), dict(kwargs)))
        return Opaque("processor")


class LineLoop(Loop):

    def modifies(self, L):
        w = L.I.globals_ghost["cli"]
        yield w.out, "count", "int"

    def inv(self, L):
        w = L.I.globals_ghost["cli"]
        yield "two printed lines per line read", w.out.get("count") == 2 * zint(L.state)


class Main(Contract):

    def __init__(self, module, direction):
        self.target = module + ":main"
        self.direction = direction

    def setup(self, I):
        I.globals_ghost["ran"] = []
        return [], {}

    def post(self, I, old, args, kwargs, result):
        ran = I.globals_ghost["ran"]
        yield "the command runs its direction once", yes(len(ran) == 1 and ran[0] in (((self.direction,), {}), ((), {"direction": self.direction})))


def prove(v, names=None):
    from tn import cli
    contracts = [ParseBool(), WithoutEnding(), ProcessLine(), CreateParser(), SelectedLanguage(), ParseArgs(), CreateProcessor(), Run(),
                 Main("tn.main", "tn"), Main("itn.main", "itn")]
    for c in contracts:
        v.contract(c)
    for key in PIPES:
        v.contract(Pipeline(key))
    v.model(argparse.ArgumentParser, lambda I, args, kwargs: I.sym(Parser(dict(zip(("prog",), args), **kwargs))), "argparse.ArgumentParser")
    v.model(print, print_model, "print")
    v.model(open, open_model, "open")
    v.models[id(sys.argv)] = (sys.argv, Argv())
    v.models[id(sys.stdin)] = (sys.stdin, StandardInput())
    v.models[id(sys.stdout)] = (sys.stdout, StdOut())
    for c in contracts:
        if names is None or any(n in c.target for n in names):
            v.verify(c)


class StdOut(Sym):
    """sys.stdout: the only output when no stream is given."""
