"""C08: a cached grammar is used only when it is the right, intact one."""
import time

from lib import cachekit, common, pipes, proof, replay
from lib.common import Check
from contracts import reading

ORACLE = '''
import hashlib
import random
import signal

FILES = ("manifest.json", "tagger.fst", "verbalizer.fst")
IDENTITY = ("builder", "bundle_digest", "cache_format", "config", "config_digest", "ordertype", "prefix", "source_fingerprint")

def read(p):
    with open(p, "rb") as f:
        return f.read()

def write(p, data):
    with open(p, "wb") as f:
        f.write(data)

def resign(b, manifest=None):
    """Makes recorded sizes and checksums match the files again."""
    m = manifest if manifest is not None else json.loads(read(b.path / "manifest.json"))
    for n in FILES[1:]:
        data = read(b.path / n)
        m["files"][n] = {"sha256": hashlib.sha256(data).hexdigest(), "size": len(data)}
    write(b.path / "manifest.json", json.dumps(m).encode())

def corrupt(b, other, kind, arg):
    """Damages the bundle; the result must be a miss.  'refused' kinds put a
    link or special file there, which must be refused, never followed."""
    rnd = random.Random(repr((kind, arg)))
    name = FILES[arg % 3]
    p = b.path / name
    data = read(p)
    man = json.loads(read(b.path / "manifest.json"))
    if kind == "flip":
        i = rnd.randrange(len(data))
        if name == "manifest.json":
            i = rnd.choice([k for k in range(len(data)) if chr(data[k]).isalnum()])
            data = data[:i] + (b"0" if data[i:i + 1] != b"0" else b"1") + data[i + 1:]
        else:
            data = data[:i] + bytes([data[i] ^ (1 << rnd.randrange(8))]) + data[i + 1:]
        write(p, data)
    elif kind == "truncate":
        write(p, data[:rnd.randrange(len(data) - 1)])
    elif kind == "append":
        write(p, data + bytes([rnd.randrange(33, 127) for _ in range(rnd.choice([1, 2, 9]))]))
    elif kind == "empty":
        write(p, b"")
    elif kind == "remove":
        os.unlink(p)
    elif kind == "extra":
        write(b.path / rnd.choice(["x", "tagger.fst.bak", ".hidden", "manifest.json~"]), b"")
    elif kind == "swap":
        t, v = read(b.tagger_path), read(b.verbalizer_path)
        write(b.tagger_path, v); write(b.verbalizer_path, t)
    elif kind == "one-from-other":
        write(b.path / FILES[1 + arg % 2], read(other.path / FILES[1 + arg % 2]))
    elif kind == "all-from-other":
        for n in FILES:
            write(b.path / n, read(other.path / n))
    elif kind == "identity":
        key = IDENTITY[arg % len(IDENTITY)]
        old = man[key]
        if arg // len(IDENTITY) % 2:
            del man[key]
        elif isinstance(old, dict):
            man[key] = dict(old, extra=1) if not old or arg // 16 % 2 else dict(list(old.items())[1:])
        elif isinstance(old, int):
            man[key] = old + 1
        else:
            man[key] = old[:-1] + ("0" if old[-1] != "0" else "1")
        write(p if name == "manifest.json" else b.path / "manifest.json", json.dumps(man).encode())
    elif kind == "metadata":
        n = FILES[1 + arg % 2]
        size = man["files"][n]["size"]
        sha = man["files"][n]["sha256"]
        edits = [("size", str(size)), ("size", float(size) + 0.5), ("size", size - 1), ("size", size + 1), ("size", -size), ("size", None),
                 ("size", True), ("size", 2 ** 70), ("sha256", sha[:-1]), ("sha256", None), ("sha256", ""), ("sha256", sha[::-1]),
                 ("del", "size"), ("del", "sha256"), ("drop", n), ("meta", []), ("meta", None), ("files", None), ("files", []), ("rename", "x.fst"), ("add", "x.fst")]
        k, v = edits[arg // 2 % len(edits)]
        if k == "del":
            del man["files"][n][v]
        elif k == "drop":
            del man["files"][n]
        elif k == "meta":
            man["files"][n] = v
        elif k == "files":
            man["files"] = v
        elif k == "rename":
            man["files"][v] = man["files"].pop(n)
        elif k == "add":
            man["files"][v] = man["files"][n]
        else:
            man["files"][n][k] = v
        write(b.path / "manifest.json", json.dumps(man).encode())
    elif kind == "no-json":
        junk = [b"", b"{", b"[]", b"null", b"1", b'"a"', b"\\xff\\xfe", b"[" * 100000, b"{}", b"NaN", b" " * 2000000, b'{"files": {}}', b"\\x00", b'{"a":' * 5000]
        write(b.path / "manifest.json", junk[arg % len(junk)])
    elif kind == "padded":
        # a correct but oversized manifest may be taken or missed, never fail
        write(b.path / "manifest.json", json.dumps(man).encode() + b" " * 1100000)
        return "any"
    elif kind == "signed-junk":
        junk = [b"", b"junk", data[:len(data) // 2], b"\\xd6\\xfd\\xb2\\x7e" + b"\\x00" * 60, bytes(200), read(b.path / "manifest.json")]
        write(b.path / FILES[1 + arg % 2], junk[arg // 2 % len(junk)])
        resign(b)
    elif kind == "gone":
        shutil.rmtree(b.path)
    elif kind == "empty-directory":
        shutil.rmtree(b.path); os.mkdir(b.path)
    elif kind == "link":
        os.rename(p, str(b.cache_root) + "/moved"); os.symlink(str(b.cache_root) + "/moved", p)
        return "refused"
    elif kind == "directory":
        os.unlink(p); os.mkdir(p)
        return "refused"
    elif kind == "fifo":
        os.unlink(p); os.mkfifo(p)
        return "refused"
    elif kind == "bundle-file":
        shutil.rmtree(b.path); write(b.path, b"x")
        return "refused"
    elif kind == "bundle-link":
        os.rename(b.path, str(b.cache_root) + "/moved"); os.symlink(str(b.cache_root) + "/moved", b.path)
        return "refused"
    elif kind == "prefix-link":
        top = str(b.cache_root) + "/toy"
        os.rename(top, str(b.cache_root) + "/moved"); os.symlink(str(b.cache_root) + "/moved", top)
        return "refused"
    return "miss"

KINDS = {"flip": 60, "truncate": 30, "append": 12, "empty": 3, "remove": 3, "extra": 4, "swap": 1, "one-from-other": 2, "all-from-other": 1,
         "identity": 32, "metadata": 42, "no-json": 14, "padded": 1, "signed-junk": 12, "gone": 1, "empty-directory": 1, "link": 3, "directory": 3,
         "fifo": 3, "bundle-file": 1, "bundle-link": 1, "prefix-link": 1}

class Slow(Exception):
    pass

def alarmed(*a):
    raise Slow("blocked")

def damage(kind, arg):
    signal.signal(signal.SIGALRM, alarmed)
    with scratch() as top:
        cache = top + "/c"
        first = make(cache, "T1", "V1", {"o": True})
        assert first.built == 1 and held(first) == ("T1", "V1")
        second = make(cache, "T2", "V2", {"o": False})
        assert second.built == 1, "a different configuration used the stored grammar"
        hit = make(cache, "T3", "V3", {"o": True})
        assert hit.built == 0 and held(hit) == ("T1", "V1"), ("a valid bundle is loaded as built", held(hit))
        b, other = bundle(cache, {"o": True}), bundle(cache, {"o": False})
        want = corrupt(b, other, kind, arg)
        signal.alarm(20)
        try:
            try:
                got = pair(b.load())
                assert got is None or want == "any" and got == ("T1", "V1"), ("%s %s: a damaged bundle was loaded" % (kind, arg), got)
                assert want != "refused", "%s %s: a link or special file was not refused" % (kind, arg)
            except Exception as e:
                from tn.cache import CachePathError
                assert want == "refused" and isinstance(e, CachePathError), ("%s %s: loading failed" % (kind, arg), repr(e))
            if want == "refused":
                return
            again = make(cache, "T4", "V4", {"o": True})
            assert (again.built, held(again)) == (1, ("T4", "V4")) or want == "any", ("%s %s: not rebuilt" % (kind, arg), again.built, held(again))
            final = make(cache, "T5", "V5", {"o": True})
            assert final.built == 0 and held(final) == held(again), ("%s %s: the rebuilt bundle is not used" % (kind, arg), final.built, held(final))
            kept = make(cache, "T6", "V6", {"o": False})
            assert kept.built == 0 and held(kept) == ("T2", "V2"), ("another bundle was disturbed", held(kept))
        finally:
            signal.alarm(0)

def value(rnd, depth=0):
    k = rnd.randrange(8 if depth < 2 else 6)
    if k < 2:
        return rnd.choice([True, False])
    if k == 2:
        return rnd.choice([None, "true", "True", "", "a", "1", "中", "é", "\\"", "}", "a,b", "0", "null"])
    if k == 3:
        return rnd.choice([0, 1, 2, -1, 10])
    if k in (4, 5):
        return rnd.choice(["".join(rnd.choice('ab":,{}[]') for _ in range(rnd.randint(0, 4)))])
    if k == 6:
        return [value(rnd, depth + 1) for _ in range(rnd.randint(0, 3))]
    return config(rnd, depth + 1)

def config(rnd, depth=0):
    return {rnd.choice(["a", "b", "ab", "a,b", 'a":', "full_to_half", "o"]): value(rnd, depth) for _ in range(rnd.randint(0, 3))}

def locations(rnd, n):
    """Different identities have different locations; equal ones the same."""
    with scratch() as top:
        seen, paths = {}, {}
        for _ in range(n):
            ident = (rnd.choice(["toy", "a", "ab", "zh_tn", "b"]), rnd.choice(["tn", "itn", "en_tn"]), config(rnd), rnd.choice(["s", "t", "st", "", "0" * 64]))
            ident = json.loads(json.dumps(ident))
            key = json.dumps(ident, sort_keys=True)
            shuffled = json.loads(json.dumps(ident[2]))
            shuffled = dict(reversed(list(shuffled.items())))
            b = bundle(top + "/c", ident[2], ident[0], ident[3], ident[1])
            c = bundle(top + "/c", shuffled, ident[0], ident[3], ident[1])
            assert b.path == c.path and b.lock_path == c.lock_path, ("equal identities differ", ident)
            assert seen.setdefault(key, str(b.path)) == str(b.path)
            assert paths.setdefault(str(b.path), key) == key, ("two identities share a location", key, paths[str(b.path)])
            assert paths.setdefault(str(b.lock_path), key) == key, ("two identities share a lock", key, paths[str(b.lock_path)])

def builders():
    """The builder (format, library and interpreter version) is in the identity."""
    import platform
    import pynini

    def plain():
        pass

    def version():
        pynini.__version__ = "0.0.verif"

    def order():
        sys.byteorder = "big" if sys.byteorder == "little" else "little"

    def python():
        info = sys.version_info
        sys.version_info = (info[0], info[1] + 1) + tuple(info[2:])

    def implementation():
        platform.python_implementation = lambda: "Other"

    def where(patch):
        for m in [m for m in sys.modules if m == "tn" or m.startswith("tn.")]:
            del sys.modules[m]
        patch()
        return str(bundle("/nonexistent/verif").path)
    places = []
    for patch in (plain, plain, version, order, python, implementation):
        code, place = in_child(lambda: where(patch))
        assert code == 0, place
        places.append(place)
    assert places[0] == places[1], "the identity is not reproducible"
    assert len(set(places)) == 5, "a builder component is missing from the identity"

def faithful(seed):
    """What a later process loads is what was built: same weighted relation."""
    import pynini
    from tn.processor import Processor
    rnd = random.Random(seed)

    def fst():
        return pynini.union(*[pynini.cross(pynini.accep("".join(rnd.choice("ab") for _ in range(rnd.randint(1, 3))), weight=rnd.choice([0, 1, -2, 0.5])),
                                           pynini.escape("".join(rnd.choice("xy中[") for _ in range(rnd.randint(0, 3))))) for _ in range(rnd.randint(1, 6))])
    t, v = fst(), fst()

    class P(Processor):
        def __init__(self, cache, over=False):
            super().__init__("p")
            self.build_fst("p", cache, over, {"k": 1})
        def build_tagger(self):
            self.tagger = t.copy()
        def build_verbalizer(self):
            self.verbalizer = v.copy()
    P._source_fingerprint = staticmethod(lambda prefix: "s")
    best = lambda f: {}
    def relation(f):
        out = {}
        for i, o, w in f.paths().items():
            out[i, o] = min(float(w), out.get((i, o), 1e9))
        return out
    with scratch() as top:
        memory = P(False)
        for p in (P(top + "/c"), P(top + "/c"), P(top + "/c", True), P(top + "/c")):
            assert relation(p.tagger) == relation(memory.tagger) == relation(t), "the tagger is not the one built"
            assert relation(p.verbalizer) == relation(memory.verbalizer) == relation(v), "the verbalizer is not the one built"

def drifting():
    """Sources that change during the build never end in a stored grammar."""
    with scratch() as top:
        state = ["one"]
        def log():
            state[0] = "two"
        try:
            make(top + "/c", fingerprint=lambda: state[0], log=log)
        except RuntimeError:
            pass
        else:
            raise AssertionError("sources changed during the build, but the bundle was published")
        assert bundle(top + "/c", fingerprint="one").load() is None
        assert bundle(top + "/c", fingerprint="two").load() is None
        p = make(top + "/c", "T2", "V2", fingerprint="two")
        assert p.built == 1 and held(p) == ("T2", "V2")
        q = make(top + "/c", "T3", "V3", fingerprint="three")
        assert q.built == 1 and held(q) == ("T3", "V3"), "changed sources used the stored grammar"
        r = make(top + "/c", "T4", "V4", fingerprint="three", overwrite=True)
        assert r.built == 1 and held(r) == ("T4", "V4"), "overwrite_cache did not rebuild"
        s = make(top + "/c", "T5", "V5", fingerprint="three")
        assert s.built == 0 and held(s) == ("T4", "V4"), "overwrite_cache did not replace the stored grammar"
        n = make(False, "T6", "V6", fingerprint="three")
        assert n.built == 1 and held(n) == ("T6", "V6"), "cache_dir=False used a stored grammar"
'''


def work(part, parts):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit))
    exec(ORACLE, scope)
    jobs = [("damaged bundles", "damage(%r, %r)" % (k, a)) for k, n in sorted(scope["KINDS"].items())
            for a in range(n * (4 if common.THOROUGH and k in ("flip", "truncate") else 1))]
    jobs += [("distinct locations", "locations(random.Random(%r), 300)" % ("%d/%d" % (common.SEED, i))) for i in range(20)]
    jobs += [("builder identity", "builders()"), ("source drift", "drifting()")]
    jobs += [("stored grammar is the built one", "faithful(%r)" % ("%d/%d" % (common.SEED, i))) for i in range(300 if common.THOROUGH else 60)]
    for name, call in jobs[part::parts]:
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call, e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    return out


def falsify(chk, work=work):
    for name, status, value in pipes.parallel([(i, work, (i, 8)) for i in range(8)]):
        if status != "ok":
            chk.obligation("runs", False, "run")
            chk.fail_obligation("concrete runs", value)
            continue
        for x in value["tried"]:
            chk.tried(x, x)
        for f in value["fail"]:
            chk.fail_input(*f)


def check():
    chk = Check("C08", "proof",
                trusted=["os, json and pynini calls: any result, any documented error (contracts/osworld.py, contracts/reading.py)",
                         "a file system does not return other bytes than the file's"],
                assumptions=["POSIX: the os.name == 'nt' branch of _load_path is not executed here",
                             "equal recorded and current identities compare equal in Python (so 1, 1.0 and True are one value)",
                             "different identities have different directories: C10; what publish stores is the built pair: C11"])
    chk.rule = "a bundle published by the real code, damaged in one way, then loaded and re-constructed; plus identity pairs and weighted grammars stored and re-read"
    proof.prove(chk, "C08", reading.prove, 400)
    falsify(chk)
    return chk
