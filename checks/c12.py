"""C12: the cache never touches anything but its own files."""
from lib import cachekit, common, replay
from lib.common import Check
from checks import c08

ORACLE = '''
import random
import signal
import uuid

OWN = ("tagger.fst", "verbalizer.fst", "manifest.json")

class Slow(BaseException):
    pass

def alarmed(*a):
    raise Slow("blocked")

def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)

class World:
    """A scratch directory with an outside part and a hostile cache root."""

    def __init__(self, top, rnd):
        self.top, self.rnd = top, rnd
        self.cache = top + "/c"
        self.marks = []
        self.b = bundle(self.cache, {"o": True})
        self.other = bundle(self.cache, {"o": True}, fingerprint="older")
        self.third = bundle(self.cache, {"o": False})
        make(self.cache, "TO", "VO", {"o": True}, fingerprint="older")
        make(self.cache, "TC", "VC", {"o": False})
        for n in OWN:
            put(top + "/outside/dir/" + n, b"outside " + n.encode())
        put(top + "/outside/file", b"outside file")
        os.mkdir(top + "/outside/empty")
        # a complete valid bundle outside of the root
        make(top + "/outside/full", "TX", "VX", {"o": True})
        self.full = bundle(top + "/outside/full", {"o": True})
        self.parent = str(self.b.parent)
        self.hidden = self.parent + "/." + self.b.bundle_digest

    def mark(self):
        m = "foreign %d %s" % (len(self.marks), self.rnd.random())
        self.marks.append(m.encode())
        return m.encode()

    def thing(self, path, kind):
        """Puts one thing at path."""
        rnd = self.rnd
        if kind == "link-dir":
            os.symlink(self.top + "/outside/" + rnd.choice(["dir", "empty"]), path)
        elif kind == "link-full":
            os.symlink(str(self.full.path), path)
        elif kind == "link-file":
            os.symlink(self.top + "/outside/file", path)
        elif kind == "link-missing":
            os.symlink(self.top + "/outside/missing", path)
        elif kind == "link-moved":
            # the key's own valid bundle, moved elsewhere in the root
            away = self.cache + "/moved-" + str(rnd.getrandbits(40))
            shutil.copytree(self.full.path, away)
            os.symlink(away, path)
        elif kind == "link-other":
            os.symlink(str(self.other.path), path)
        elif kind == "file":
            put(path, self.mark())
        elif kind == "fifo":
            os.mkfifo(path)
        elif kind == "own":
            os.mkdir(path)
            for n in rnd.sample(OWN, rnd.randint(0, 3)):
                put(path + "/" + n, b"part of a bundle")
        elif kind == "valid":
            shutil.copytree(self.full.path, path)
        elif kind == "foreign-file":
            os.mkdir(path)
            for n in OWN:
                put(path + "/" + n, self.mark())
            put(path + "/" + rnd.choice(["notes.txt", "tagger.fst.bak", ".x", "Manifest.json", "sub.fst"]), self.mark())
        elif kind == "foreign-dir":
            os.mkdir(path)
            put(path + "/" + rnd.choice(["sub", "tagger.fst", "manifest.json"]) + "/" + rnd.choice(["deep", "tagger.fst"]), self.mark())
        elif kind == "empty-dir-inside":
            os.mkdir(path)
            os.mkdir(path + "/" + rnd.choice(["sub", "tagger.fst"]))
            put(path + "/manifest.json", self.mark())
        elif kind == "fifo-inside":
            os.mkdir(path)
            os.mkfifo(path + "/tagger.fst")
            put(path + "/manifest.json", self.mark())
        elif kind == "links-inside":
            os.mkdir(path)
            for n in OWN:
                os.symlink(self.top + "/outside/" + rnd.choice(["file", "dir/" + n, "dir", "missing", "empty"]), path + "/" + n)
        else:
            raise KeyError(kind)

    def keep(self):
        """What must not change: (description, snapshot) by path."""
        out = {}
        for rel, v in snapshot(self.top).items():
            p = self.top + "/" + rel
            if not p.startswith(self.cache + "/"):
                if p not in (self.cache, self.top + "/outside", self.top + "/xdg"):
                    out[rel] = v
            elif p.startswith((str(self.other.path), str(self.third.path))):
                out[rel] = v
            elif p.startswith(self.parent + "/") and self.b.bundle_digest not in p[len(self.parent):].split("/")[1]:
                out[rel] = v
            elif os.path.islink(p) or not (os.path.isdir(p) or os.path.isfile(p)):
                name = p[len(self.parent) + 1:]
                if "/" not in name:
                    out[rel] = v
        return out

    def watch(self, event, path):
        """Every change is inside the root and belongs to this key."""
        b = self.b
        own_tree = self.cache.rsplit("/", 1)[0]
        if path in (str(b.cache_root), str(b.cache_root / b.prefix), self.parent) and event == "os.mkdir":
            return
        assert path.startswith(self.parent + "/"), "%s of %s, which is not in the directory of the key" % (event, path)
        first = path[len(self.parent) + 1:].split("/")[0]
        assert b.bundle_digest in first, "%s of %s, which belongs to something else" % (event, path)

PLACES = ("prefix", "parent", "bundle", "lock", "residual", "residual", "residual", "neighbour", "root-link")
THINGS = {
    "prefix": ("link-dir", "link-full", "file", "link-missing", "fifo"),
    "parent": ("link-dir", "link-full", "file", "link-missing", "link-other"),
    "bundle": ("link-moved", "link-dir", "link-full", "link-other", "link-missing", "link-file", "file", "fifo", "foreign-file", "foreign-dir", "own", "links-inside", "fifo-inside", "empty-dir-inside", "valid"),
    "lock": ("link-file", "link-missing", "link-dir", "fifo", "own", "foreign-file"),
    "residual": ("link-moved", "link-dir", "link-full", "link-other", "link-missing", "file", "fifo", "foreign-file", "foreign-dir", "own", "valid", "links-inside", "fifo-inside", "empty-dir-inside"),
    "neighbour": ("own", "valid", "file", "link-dir", "foreign-file"),
    "root-link": ("",),
}

def hostile(seed, place, kind, action):
    rnd = random.Random(repr((seed, place, kind)))
    signal.signal(signal.SIGALRM, alarmed)
    with scratch() as top:
        w = World(top, rnd)
        b = w.b
        digest = b.bundle_digest
        own = rnd.random() < 0.5 and place not in ("prefix", "parent", "bundle")
        if own:
            make(w.cache, "T0", "V0", {"o": True})
        if place == "prefix":
            w.marks, w.other, w.third = [], w.full, w.full
            os.rename(w.cache + "/toy", top + "/outside/moved")
            w.thing(w.cache + "/toy", kind)
        elif place == "parent":
            w.other = w.full
            os.rename(w.parent, top + "/outside/moved")
            w.thing(w.parent, kind)
        elif place == "bundle":
            w.thing(str(b.path), kind)
        elif place == "lock":
            if os.path.lexists(b.lock_path):
                os.unlink(b.lock_path)
            w.thing(str(b.lock_path), kind)
        elif place == "residual":
            for tail in rnd.sample([".tmp-", ".previous-", ".corrupt-"], rnd.randint(1, 3)):
                w.thing(w.hidden + tail + uuid.UUID(int=rnd.getrandbits(128)).hex, kind)
        elif place == "neighbour":
            for name in (digest[:-1] + "-x", digest[:20], ".%s.tmp-x" % w.other.bundle_digest, ".%s.previous-x" % w.other.bundle_digest,
                         ".%s.corrupt-x" % w.third.bundle_digest, ".tmp-x", "tmp", ".lock", ".previous-x", digest[1:]):
                w.thing(w.parent + "/" + name, kind)
        elif place == "root-link":
            os.rename(w.cache, top + "/real")
            os.symlink(top + "/real", w.cache)
            w.b = b = bundle(w.cache, {"o": True})
            w.other = bundle(w.cache, {"o": True}, fingerprint="older")
            w.third = bundle(w.cache, {"o": False})
            w.parent = str(b.parent)
            w.cache = str(b.cache_root)
            assert w.cache == top + "/real", w.cache
        before = w.keep()
        STATE["watch"] = w.watch
        signal.alarm(20)
        try:
            act(action, w)
        except Slow:
            raise AssertionError("blocked")
        except AssertionError:
            raise
        except Exception as e:
            assert place not in ("residual", "neighbour", "root-link") or kind.endswith("-inside"), ("the cache is unusable because of " + place + " " + kind, repr(e))
        finally:
            signal.alarm(0)
            STATE["watch"] = None
        after = snapshot(top)
        for rel, v in before.items():
            assert after.get(rel) == v, ("changed or deleted", rel, v, after.get(rel))
        found = [v[2] for v in after.values()]
        for m in w.marks:
            assert m in found, ("a foreign file was deleted or overwritten", m)
        extra = [r for r in after if r.startswith("outside/") and r not in before]
        assert not extra, ("created outside of the root", extra)

ACTIONS = ("load", "make", "overwrite", "recover", "remove", "publish")

def act(action, w):
    from tn.cache import CacheBundle
    b = w.b
    if action == "load":
        if not os.path.islink(b.path) and not os.path.islink(b.parent) and not os.path.islink(b.cache_root / b.prefix):
            b.load()
        else:
            try:
                got = b.load()
            except Exception:
                return
            assert got is None, "a grammar was loaded through a link"
    elif action in ("make", "overwrite"):
        # always as the key under attack
        p = make(str(b.cache_root), "TN", "VN", {"o": True}, overwrite=action == "overwrite")
        assert held(p) != ("TX", "VX") or not os.path.islink(b.path), "a grammar was loaded through a link"
    else:
        with b.lock(timeout=1):
            if action == "recover":
                b.recover_residuals()
            elif action == "remove":
                b.remove_invalid()
            else:
                b.publish(graph("TN"), graph("VN"))

def swapped(k, tail, link):
    """While a leftover is being cleaned up it is replaced by a link, or by
    a directory which also holds foreign files."""
    with scratch() as top:
        cache = top + "/c"
        make(cache, "T0", "V0")
        b = bundle(cache)
        left = str(b.parent) + "/." + b.bundle_digest + tail + "x"
        os.mkdir(left)
        os.mkdir(top + "/outside")
        for n in OWN:
            put(left + "/" + n, b"leftover")
            put(top + "/outside/" + n, b"precious")
        put(top + "/outside/notes.txt", b"precious")

        def swap():
            sys.settrace(None)
            if os.path.isdir(left) and not os.path.islink(left):
                os.rename(left, top + "/away")
                if link:
                    os.symlink(top + "/outside", left)
                else:
                    os.rename(top + "/outside", left)

        def child():
            count = [0]

            def local(frame, event, arg):
                if event == "line":
                    if count[0] == k:
                        swap()
                    count[0] += 1
                return local
            sys.settrace(lambda f, e, a: local if f.f_code.co_filename.endswith("/tn/cache.py") else None)
            try:
                with b.lock():
                    b.recover_residuals()
            except Exception as e:
                return ["raised", repr(e), count[0]]
            finally:
                sys.settrace(None)
            return ["done", "", count[0]]
        code, out = in_child(child)
        assert code == 0, (k, out)
        home = top + "/outside" if os.path.isdir(top + "/outside") else left
        for n in OWN + ("notes.txt",):
            p = home + "/" + n
            assert os.path.exists(p), ("a foreign file was deleted", n, k)
            with open(p, "rb") as f:
                assert f.read() == b"precious", ("a foreign file was changed", n)
        return out[2] > k

BAD_PREFIXES = ["", ".", "..", "a/b", "/abs", "../x", "x/..", "a\\\\b", "a\\0b", "a\\n", "\\na", "a b", "中", "é", "~", "a/", "/", "./a", "a:b", "*", None, 1, b"a", ["a"], ("a",), True, "a\\r", "a\\t", " ", "a\\u00a0"]
GOOD_PREFIXES = ["zh_tn", "a", "A.b-c_9", "...", "-", "_", ".a", "a..b"]

def prefixes():
    from tn.cache import CacheBundle
    with scratch() as top:
        for bad in BAD_PREFIXES:
            try:
                b = CacheBundle(top + "/c/d", bad, "tn", {}, "s")
            except ValueError:
                continue
            raise AssertionError("prefix %r was accepted: %s" % (bad, b.path))
        for good in GOOD_PREFIXES:
            b = CacheBundle(top + "/c/d", good, "tn", {}, "s")
            for p in (b.path, b.parent, b.lock_path, b.tagger_path, b.verbalizer_path, b.manifest_path):
                assert os.path.realpath(p).startswith(os.path.realpath(top) + "/c/d/" + good + "/"), (good, p)
            assert not os.path.exists(top + "/c"), "naming a bundle already creates files"
'''


def work(part, parts):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit), print=lambda *a: None)
    exec(ORACLE, scope)
    jobs = [("prefix validation", "prefixes()")]
    jobs += [("swapped leftovers", "swapped(%d, %r, %r)" % (k, t, link)) for k in range(0, 260) for t in (".tmp-", ".previous-", ".corrupt-") for link in (True, False)]
    for seed in range(12 if common.THOROUGH else 3):
        for place in sorted(set(scope["PLACES"])):
            for kind in scope["THINGS"][place]:
                for action in scope["ACTIONS"]:
                    jobs.append(("hostile cache contents", "hostile(%r, %r, %r, %r)" % ("%d/%d" % (common.SEED, seed), place, kind, action)))
    for name, call in jobs[part::parts]:
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call, e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    return out


def check():
    chk = Check("C12", "exploration")
    chk.rule = "hostile cache contents (links, foreign files, special files in every cache position) under every cache operation: audited changes, snapshot of everything that is not the key's"
    c08.falsify(chk, work)
    return chk
