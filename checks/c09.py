"""C09: the source fingerprint covers every grammar source, unambiguously."""
from lib import cachekit, common, pipes, replay
from lib.common import Check
from checks import c08

ORACLE = '''
import random

def fp(root):
    from tn.cache import production_source_fingerprint
    return production_source_fingerprint(root)

def plant(top, tree):
    for rel, data in tree:
        p = os.path.join(top, rel)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f:
            f.write(data)
    for d in ("tn", "itn"):
        os.makedirs(os.path.join(top, d), exist_ok=True)

def source(rel):
    """Is this path a grammar-producing source (from the property text)?"""
    parts = rel.split("/")
    return (parts[0] in ("tn", "itn") and len(parts) > 1 and parts[-1].endswith((".py", ".tsv", ".far")) and not parts[-1].startswith(".")
            and "test" not in parts[1:] and "__pycache__" not in parts[1:] and parts[-1] != "_version.py")

DIRS = ["tn", "itn", "tn/chinese", "tn/a", "itn/a", "tn/a/b", "tn/data", "itn/english/rules", "tn/test", "itn/x/test", "tn/__pycache__", "tn/testing", "docs"]
NAMES = ["a.py", "b.py", "a.tsv", "b.far", "ab.py", "_version.py", "x.pyc", "README.md", "a.txt", "__init__.py", "a.py.bak", "c.tsv", "version.py", "test.py"]

def tree(rnd):
    out = {}
    for _ in range(rnd.randint(1, 5)):
        out[rnd.choice(DIRS) + "/" + rnd.choice(NAMES)] = content(rnd)
    return out

def content(rnd):
    k = rnd.randrange(8)
    if k == 0:
        return b""
    if k == 1:
        return bytes(rnd.randrange(256) for _ in range(rnd.randint(1, 5)))
    if k == 2:
        return b"\\x00" * rnd.randint(1, 10)
    return rnd.choice([b"a", b"b", b"ab", b"a\\n", b"a\\r\\n", b"\\n", b"a b", b"\\xef\\xbb\\xbfa", b"tn/b.py", b"b.py"])

def mutations(rnd, t):
    """Trees differing from t in one way."""
    paths = sorted(t)
    r = rnd.choice(paths)
    d = t[r]
    new = dict(t)
    k = rnd.randrange(9)
    if k == 0:
        del new[r]
    elif k == 1:
        new[rnd.choice(DIRS) + "/" + rnd.choice(NAMES)] = content(rnd)
    elif k == 2:
        new[r] = content(rnd)
    elif k == 3 and d:
        i = rnd.randrange(len(d))
        new[r] = d[:i] + bytes([d[i] ^ (1 << rnd.randrange(8))]) + d[i + 1:]
    elif k == 4:
        new[r] = d + rnd.choice([b"\\n", b" ", b"\\x00", b"x"])
    elif k == 5:
        new[rnd.choice(DIRS) + "/" + rnd.choice(NAMES)] = new.pop(r)
    elif k == 6 and len(paths) > 1:
        q = rnd.choice(paths)
        new[r], new[q] = new[q], new[r]
    elif k == 7 and len(paths) > 1:
        # move the boundary between two contents
        q = rnd.choice([p for p in paths if p != r])
        new[r], new[q] = d + t[q], b""
    elif k == 8 and len(d) > 1:
        i = rnd.randrange(len(d))
        new[r] = d[:i] + d[i + 1:]
    return new

def compare(a, b):
    with scratch() as top:
        plant(top + "/1", sorted(a.items()))
        plant(top + "/elsewhere/2", sorted(b.items(), reverse=True))
        fa, fb = fp(top + "/1"), fp(top + "/elsewhere/2")
        assert fa == fp(top + "/1"), "not reproducible"
        for d, _, files in os.walk(top + "/1"):
            for n in files:
                os.utime(os.path.join(d, n), (1, 1))
        assert fa == fp(top + "/1"), "depends on timestamps"
        same = {k: v for k, v in a.items() if source(k)} == {k: v for k, v in b.items() if source(k)}
        print(sorted(a.items()), sorted(b.items()), fa, fb)
        assert (fa == fb) == same, ("the same fingerprint for different sources" if fa == fb else "different fingerprints for the same sources", a, b)

def framing(seed):
    """One file holding what looks like the encoding of a second file."""
    rnd = random.Random(seed)
    x, y = content(rnd), content(rnd)
    import hashlib
    size = lambda b, n=8, o="big": len(b).to_bytes(n, o)
    a, b = b"tn/a.py", b"tn/b.py"
    heads = [b"", b"\\x00", b"\\n", b":", b" ", b"\\x00\\x00"]
    glued = [h + b + g for h in heads for g in heads]
    glued += [size(b, n, o) + b for n in (1, 2, 4, 8) for o in ("big", "little")]
    glued += [size(b, n, o) + b + size(y, n, o) for n in (1, 2, 4, 8) for o in ("big", "little")]
    glued += [hashlib.sha256(x).digest() + size(b) + b, hashlib.sha256(b"").digest() + size(b) + b]
    glued += [str(len(b)).encode() + h + b + g + str(len(y)).encode() + h for h in heads for g in heads[:2]]
    g = glued[rnd.randrange(len(glued))] if seed >= len(glued) else glued[seed]
    compare({"tn/a.py": x + g + y}, {"tn/a.py": x, "tn/b.py": y})
    compare({"tn/ab.py": x}, {"tn/a.py": b"b.py" + x})
    compare({"tn/a.py": x, "itn/a.py": y}, {"tn/a.py": y, "itn/a.py": x})

def large(seed):
    rnd = random.Random(seed)
    n = rnd.choice([2 ** 20 - 1, 2 ** 20, 2 ** 20 + 1, 2 ** 21, 2 ** 21 + 5, 3 * 2 ** 20])
    base = bytearray(rnd.randbytes(n))
    other = bytearray(base)
    i = rnd.choice([0, n - 1, n // 2, 2 ** 20 - 2, n - 2])
    other[i] ^= 1
    with scratch() as top:
        plant(top, [("tn/a.far", bytes(base)), ("itn/b.py", b"x")])
        f = fp(top)
        with open(top + "/tn/a.far", "r+b") as h:
            h.seek(i); h.write(bytes([other[i]]))
        assert fp(top) != f, ("byte %d of %d is not covered" % (i, n))
        with open(top + "/tn/a.far", "wb") as h:
            h.write(bytes(base))
        assert fp(top) == f
        with open(top + "/tn/a.far", "wb") as h:
            h.write(bytes(base[:-1]))
        assert fp(top) != f, "the length is not covered"

def shipped(part, parts):
    """Every shipped source file is covered; the default root is the package."""
    import tn
    root = os.path.dirname(os.path.dirname(os.path.abspath(tn.__file__)))
    with scratch() as top:
        for d in ("tn", "itn"):
            shutil.copytree(os.path.join(root, d), top + "/" + d, ignore=shutil.ignore_patterns("__pycache__"))
        base = fp(top)
        from tn.cache import production_source_fingerprint
        assert production_source_fingerprint() == base, "the default root is not the shipped source tree"
        rels = sorted(os.path.relpath(os.path.join(d, n), top) for d, _, ns in os.walk(top) for n in ns)
        for rel in rels[part::parts]:
            p = top + "/" + rel
            with open(p, "rb") as f:
                data = f.read()
            with open(p, "ab") as f:
                f.write(b" ")
            changed = fp(top) != base
            with open(p, "wb") as f:
                f.write(data)
            assert changed == source(rel), ("%s %s" % (rel, "is covered" if changed else "is not covered"))
        assert fp(top) == base
'''


def work(part, parts):
    out = {"tried": [], "fail": []}
    scope = dict(vars(cachekit), print=lambda *a: None)
    exec(ORACLE, scope)
    rng = common.rng("C09", part)
    jobs = [("framing", "framing(%d)" % i) for i in range(120)][part::parts]
    jobs += [("large files", "large(%d)" % i) for i in range(16)][part::parts]
    jobs += [("shipped sources", "shipped(%d, %d)" % (part, parts))]
    for _ in range(1500 if common.THOROUGH else 200):
        a = scope["tree"](rng)
        b = scope["mutations"](rng, a)
        jobs.append(("pairs of trees", "compare(%r, %r)" % (a, b)))
        if rng.random() < 0.2:
            jobs.append(("pairs of trees", "compare(%r, %r)" % (a, scope["tree"](rng))))
    for name, call in jobs:
        out["tried"].append(call)
        try:
            exec(call, scope)
        except BaseException as e:
            out["fail"].append((name, "%s: %r" % (call[:300], e), replay.with_module(cachekit, ORACLE + "\n" + call)))
            if len(out["fail"]) > 3:
                break
    return out


def check():
    chk = Check("C09", "exploration")
    chk.rule = "pairs of source trees differing in one way (content, name, boundary, order, ignored files), fingerprinted by the real code; every shipped source file changed once"
    c08.falsify(chk, work)
    return chk
