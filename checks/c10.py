"""C10: every pipeline option is part of the cache identity."""
from lib import cachekit, common, pipes, proof, replay
from lib.common import Check
from contracts import options

ORACLE = '''
import importlib
import inspect
import itertools

class Found(BaseException):
    pass

def identity(cls, options):
    """Where this construction looks for its stored grammar."""
    from tn.cache import CacheBundle
    real = CacheBundle.load

    def load(self):
        raise Found(str(self.path.relative_to(self.cache_root)), self.prefix)
    CacheBundle.load = load
    try:
        with scratch() as top:
            try:
                cls(cache_dir=top + "/c", **options)
            except Found as f:
                return f.args
    finally:
        CacheBundle.load = real
    raise AssertionError("no stored grammar was looked for")

def options_of(cls):
    out = {}
    for n, p in inspect.signature(cls.__init__).parameters.items():
        if n in ("self", "cache_dir", "overwrite_cache"):
            continue
        assert p.default is not inspect.Parameter.empty, n
        assert isinstance(p.default, bool), ("option without a boolean default", n, p.default)
        out[n] = p.default
    return out

def pipeline(module, name):
    cls = getattr(importlib.import_module(module), name)
    opts = options_of(cls)
    seen = {}
    for values in itertools.product([True, False], repeat=len(opts)):
        o = dict(zip(opts, values))
        where = identity(cls, o)
        assert where[0] not in seen, ("two option sets share a stored grammar", o, seen.get(where[0]))
        seen[where[0]] = o
        if len(seen) <= 4:
            assert where == identity(cls, dict(reversed(list(o.items())))), ("equal options, different identity", o)
            assert where == identity(cls, {k: v for k, v in o.items() if v != opts[k]}), ("a default value differs from the omitted option", o)
            # the options that do not change the grammar are not in the identity
    return sorted(seen)
'''
ONE = ORACLE + "\npipeline(%r, %r)\n"
ALL = ORACLE + '''
SPECS = %r
seen = {}
for name, (module, cls) in sorted(SPECS.items()):
    for where in pipeline(module, cls):
        assert where not in seen, ('two pipelines share a stored grammar', name, seen[where])
        seen[where] = name
'''


def one(name):
    scope = dict(vars(cachekit))
    exec(ORACLE, scope)
    try:
        return scope["pipeline"](*pipes.SPECS[name]), None
    except BaseException as e:
        return [], "%r" % (e,)


def falsify(chk):
    seen = {}
    for name, status, value in pipes.parallel([(n, one, (n,)) for n in pipes.ALL]):
        if status != "ok":
            chk.fail_obligation(name + " identities", value)
            continue
        places, error = value
        if error:
            chk.fail_input(name + " option identity", error, replay.with_module(cachekit, ONE % pipes.SPECS[name]))
        for p in places:
            chk.tried({"pipeline": name, "location": p}, (name, p))
            if p in seen and seen[p] != name:
                chk.fail_input("pipelines have distinct identities", "%s and %s share %s" % (name, seen[p], p), replay.with_module(cachekit, ALL % (pipes.SPECS,)))
            seen[p] = name


def check():
    chk = Check("C10", "proof",
                trusted=["json.dumps with sorted keys is an injective function of a JSON value", "SHA-256 has no collisions", "pathlib and os.path as documented; re.fullmatch of one character class"],
                assumptions=["options are booleans", "the grammar builders read nothing but the pipeline object and the sources (no environment, clock or randomness)"])
    chk.rule = "all option assignments of the six pipelines (exhaustive), each with the stored location the real constructor looks up"
    proof.prove(chk, "C10", options.prove, 200)
    falsify(chk)
    return chk
