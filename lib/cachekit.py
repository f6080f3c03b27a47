"""Scratch caches, tiny grammars and snapshots used by the cache checks.

Everything happens below a scratch directory; ``guard`` is an audit hook which
aborts any file-system change outside of it.
"""
import contextlib
import json
import logging
import os
import shutil
import stat
import sys
import tempfile

logging.disable(logging.CRITICAL)
MUTATING = {"os.rename": 2, "os.remove": 1, "os.rmdir": 1, "os.mkdir": 1, "os.link": 2, "os.symlink": 2, "os.chmod": 1,
            "os.chown": 1, "os.truncate": 1, "os.utime": 1, "shutil.rmtree": 1}
STATE = {"root": None, "watch": None}


def _resolve(path, dir_fd=-1):
    if isinstance(path, int):
        try:
            return os.readlink("/proc/self/fd/%d" % path)
        except OSError:
            return None
    path = os.fsdecode(path)
    if not os.path.isabs(path):
        base = os.getcwd()
        if isinstance(dir_fd, int) and dir_fd >= 0:
            try:
                base = os.readlink("/proc/self/fd/%d" % dir_fd)
            except OSError:
                pass
        path = os.path.join(base, path)
    return path


def _targets(event, args):
    """[(path of the changed directory entry)] of one audited change."""
    if event == "open":
        path, mode, flags = (list(args) + [None, None, None])[:3]
        if path is None or not isinstance(flags, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC):
            return []
        if isinstance(path, int):
            return []
        return [_resolve(path)]
    if event == "os.rename":
        return [_resolve(args[0], args[2] if len(args) > 2 else -1), _resolve(args[1], args[3] if len(args) > 3 else -1)]
    if event == "os.symlink":
        return [_resolve(args[1], args[2] if len(args) > 2 else -1)]
    if event in MUTATING:
        fd = [a for a in args[1:] if isinstance(a, int)]
        return [_resolve(args[0], fd[-1] if fd else -1)]
    return []


def _hook(event, args):
    if STATE["root"] is None or STATE.get("busy"):
        return
    if event != "open" and event not in MUTATING:
        return
    STATE["busy"] = True
    try:
        for path in _targets(event, args):
            if path is None:
                continue
            real = os.path.join(os.path.realpath(os.path.dirname(path)), os.path.basename(path))
            if event == "open" and real.startswith("/dev/"):
                continue
            if not (real + "/").startswith(STATE["root"] + "/"):
                raise AssertionError("%s touches %s outside the scratch directory" % (event, real))
            if STATE["watch"] is not None:
                STATE["watch"](event, real)
    finally:
        STATE["busy"] = False


_installed = []


@contextlib.contextmanager
def scratch():
    if not _installed:
        sys.addaudithook(_hook)
        _installed.append(1)
    d = os.path.realpath(tempfile.mkdtemp(prefix="verif-cache-"))
    assert d.startswith(("/tmp/", os.path.realpath(tempfile.gettempdir()) + "/")) and "verif-cache-" in d
    old = dict(STATE)
    STATE.update(root=d, watch=None, busy=False)
    os.environ["HOME"] = d
    os.environ["XDG_CACHE_HOME"] = d + "/xdg"
    try:
        yield d
    finally:
        STATE.update(old)
        shutil.rmtree(d, ignore_errors=True)


def graph(text):
    """A tiny transducer; ``text`` identifies it."""
    import pynini
    return pynini.cross("x", pynini.escape(text)).optimize()


def make(cache, tag="T", verb="V", config=None, prefix="toy", overwrite=False, fingerprint="src", ordertype="tn", log=None):
    """Constructs a Processor whose grammar is identified by (tag, verb)."""
    from tn.processor import Processor

    class Toy(Processor):

        def __init__(self):
            super().__init__("toy", ordertype=ordertype)
            self.built = 0
            self.build_fst(prefix, cache, overwrite, config)

        def build_tagger(self):
            self.built += 1
            if log is not None:
                log()
            self.tagger = graph(tag)

        def build_verbalizer(self):
            self.verbalizer = graph(verb)

        @staticmethod
        def _source_fingerprint(p):
            return fingerprint() if callable(fingerprint) else fingerprint

    return Toy()


def bundle(cache, config=None, prefix="toy", fingerprint="src", ordertype="tn"):
    from tn.cache import CacheBundle
    return CacheBundle(cache, prefix, ordertype, {} if config is None else config, fingerprint)


def outputs(fst):
    return tuple(sorted((i, o, float(w)) for i, o, w in fst.paths().items()))


def pair(graphs):
    """(tag, verb) identifying a loaded pair, or None for a miss."""
    if graphs is None:
        return None
    out = []
    for g in graphs:
        p = outputs(g)
        assert len(p) == 1 and p[0][0] == "x", ("not a grammar that was ever built", p)
        out.append(p[0][1])
    return tuple(out)


def held(p):
    return pair((p.tagger, p.verbalizer))


def snapshot(top):
    """path -> (type, mode, content) of everything below top, links not followed."""
    out = {}
    for d, dirs, files in os.walk(top):
        for n in dirs + files:
            p = os.path.join(d, n)
            s = os.lstat(p)
            k = stat.S_IFMT(s.st_mode)
            if stat.S_ISLNK(s.st_mode):
                v = os.readlink(p)
            elif stat.S_ISREG(s.st_mode):
                with open(p, "rb") as f:
                    v = f.read()
            else:
                v = None
            out[os.path.relpath(p, top)] = (k, stat.S_IMODE(s.st_mode), v)
    return out


def open_fds():
    out = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            out[f] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return {k: v for k, v in out.items() if not v.endswith("/fd") and "/fd" not in v.split("/proc/")[-1:][0]}


def in_child(fn):
    """Runs fn in a forked child; returns (exit status, text it wrote)."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 120
        try:
            out = fn()
            os.write(w, json.dumps(out).encode()[:60000])
            code = 0
        except SystemExit as e:
            code = e.code if isinstance(e.code, int) else 121
        except BaseException as e:
            os.write(w, json.dumps({"exception": type(e).__name__, "text": repr(e)}).encode()[:60000])
            code = 122
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        part = os.read(r, 65536)
        if not part:
            break
        data += part
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return os.waitstatus_to_exitcode(status), (json.loads(data) if data else None)
